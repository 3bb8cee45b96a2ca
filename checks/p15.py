"""P15 - the narrow-band optimizer always solves the current band."""
import contextlib
import io

import random

import numpy as np

from sim.core import Scenario, Violation

RULE = ("A plan is a moving-band optimisation (grid, kept cells, start design, exploration and compilation schedule, "
        "move limits, filter) driven by a sequence of sensitivities that makes the band grow, shrink and return, or by "
        "the real multigrid solver; a multi-resolution run; a history of solvers created for different bands, loads and "
        "options on one multigrid object and called in any order; or a history of superset bands and sparse designs; "
        "with failures injected at the n-th call of any collaborator. Non-trivial: the band changed at least once, or a "
        "failure fired, or two solvers alive at the same time were used.")
STATE_MEASURE = "distinct (scenario, band changes, compiled switch, levels, failure site, solver history) tuples"
TIME_UNIT = "optimisation iterations"
REAL = ("run_narrowband_oc, run_narrowband_multires, oc_update, create_sensitivity_filter, NarrowBandCMG.build / load_vector, "
        "NarrowBandCMG solver and compliance (real-solver runs), NarrowBand, SupersetBand, SparseDesign")
STUB = "multigrid solve and compliance in scripted runs (planned displacements and sensitivities); cuDSS is not installed, the coarsest level uses the Krylov solver"
ASSUMPTIONS = ["unit-spacing grids (documented scope of the multigrid solver)",
               "loads lie on kept cells, so every band contains them"]
CONFIG = dict(quick=dict(wall_s=90, runs=20000, shrink_s=25, plan_s=200),
              thorough=dict(wall_s=1200, runs=10 ** 9, shrink_s=60, plan_s=200))


class Boom(Exception):
    pass


FAULTS = dict(boom=Boom, mem=MemoryError, int=KeyboardInterrupt, val=ValueError, fp=FloatingPointError, key=KeyError,
              run=RuntimeError, os=OSError, stop=StopIteration, idx=IndexError)


# ------------------------------------------------------------- references
def dilate(m, n):
    """n steps of face-neighbour dilation."""
    m = np.array(m, bool)
    for _ in range(n):
        o = m.copy()
        for ax in range(3):
            a = [slice(None)] * 3
            b = [slice(None)] * 3
            a[ax], b[ax] = slice(1, None), slice(None, -1)
            o[tuple(a)] |= m[tuple(b)]
            o[tuple(b)] |= m[tuple(a)]
        m = o
    return m


def oc_at(rho, dc, lam, move, xmin):
    be = np.maximum(0.0, -dc / lam)
    x = np.clip(rho * np.sqrt(be), rho - move, rho + move)
    return np.clip(x, xmin, 1.0)


def oc_ref(rho, dc, vf, move, xmin):
    """The update and whether the volume target is reachable."""
    t = vf * rho.size
    lo, hi = -27 * np.log(10), 8.9 * np.log(10)
    if oc_at(rho, dc, np.exp(lo), move, xmin).sum() <= t:
        x = oc_at(rho, dc, 1e-40, move, xmin)          # as much material as possible
        x[(dc < 0) & (rho * np.sqrt(np.maximum(-dc, 0) * 1e25) < 2)] = np.nan           # beyond the precision of the multiplier
        return x, False
    if oc_at(rho, dc, np.exp(hi), move, xmin).sum() >= t:
        x = oc_at(rho, dc, 1e9, move, xmin)
        x[dc < -1e3] = np.nan
        return x, False
    for _ in range(90):
        m = 0.5 * (lo + hi)
        if oc_at(rho, dc, np.exp(m), move, xmin).sum() > t:
            lo = m
        else:
            hi = m
    return oc_at(rho, dc, np.exp(0.5 * (lo + hi)), move, xmin), True


def filt_ref(dims, rmin, active, rho, dc):
    nx, ny, nz = dims
    full_r, full_d = np.zeros(dims), np.zeros(dims)
    idx = np.unravel_index(active, dims)
    full_r[idx], full_d[idx] = rho, dc
    num, hs = np.zeros(dims), np.zeros(dims)
    R = int(np.ceil(rmin))
    for a in range(-R, R + 1):
        for b in range(-R, R + 1):
            for c in range(-R, R + 1):
                w = rmin - np.sqrt(a * a + b * b + c * c)
                if w <= 0:
                    continue
                d = tuple(slice(max(0, -o), n - max(0, o)) for o, n in zip((a, b, c), dims))
                s = tuple(slice(max(0, o), n - max(0, -o)) for o, n in zip((a, b, c), dims))
                num[d] += w * (full_r * full_d)[s]
                hs[d] += w
    return (num / (hs * np.maximum(1e-3, full_r)))[idx]


def upsample_ref(g, shape):
    out = np.asarray(g, float)
    for ax, t in enumerate(shape):
        s = out.shape[ax]
        x = np.arange(t) * ((s - 1) / (t - 1)) if t > 1 else np.zeros(1)
        i = np.minimum(np.floor(x + 1e-12).astype(int), max(0, s - 2))
        f = x - i
        j = np.minimum(i + 1, s - 1)
        sh = [1] * out.ndim
        sh[ax] = t
        f = f.reshape(sh)
        out = np.take(out, i, ax) * (1 - f) + np.take(out, j, ax) * f
    return np.clip(out, 0.0, 1.0)


def hex_ke(nu):
    """24x24 stiffness of the unit cube, corners (dx,dy,dz) with dz fastest; 3-point Gauss."""
    lam, mu = nu / ((1 + nu) * (1 - 2 * nu)), 1 / (2 * (1 + nu))
    cor = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    xs, ws = np.polynomial.legendre.leggauss(3)
    xs, ws = (xs + 1) / 2, ws / 2
    K = np.zeros((24, 24))
    for i, x in enumerate(xs):
        for j, y in enumerate(xs):
            for k, z in enumerate(xs):
                G = np.zeros((8, 3))
                for a, (p, q, r) in enumerate(cor):
                    fx, fy, fz = (x if p else 1 - x), (y if q else 1 - y), (z if r else 1 - z)
                    G[a] = [(1 if p else -1) * fy * fz, (1 if q else -1) * fx * fz, (1 if r else -1) * fx * fy]
                w = ws[i] * ws[j] * ws[k]
                for a in range(8):
                    for b in range(8):
                        blk = lam * np.outer(G[a], G[b]) + mu * np.outer(G[b], G[a]) + mu * (G[a] @ G[b]) * np.eye(3)
                        K[3 * a:3 * a + 3, 3 * b:3 * b + 3] += w * blk
    return K


KES = {}


class Dense:
    """Own assembly of the elasticity operator of a band."""

    def __init__(self, dims, cells, fixed, nu, Emin, E0, penal):
        nx, ny, nz = dims
        cells = np.asarray(cells)
        ex, ey, ez = np.unravel_index(cells, dims)
        cn = np.stack([((ex + a) * (ny + 1) + ey + b) * (nz + 1) + ez + c
                       for a in (0, 1) for b in (0, 1) for c in (0, 1)], 1)
        self.nodes = np.unique(cn)
        loc = np.searchsorted(self.nodes, cn)
        self.edof = (3 * loc[:, :, None] + np.arange(3)).reshape(len(cells), 24)
        self.n = 3 * self.nodes.size
        i, j, k = np.unravel_index(self.nodes, (nx + 1, ny + 1, nz + 1))
        self.free = np.repeat(~fixed(i, j, k, nx, ny, nz), 3)
        if nu not in KES:
            KES[nu] = hex_ke(nu)
        self.KE, self.mat = KES[nu], (Emin, E0, penal)

    def E(self, rho):
        a, b, p = self.mat
        return a + np.asarray(rho) ** p * (b - a)

    def K(self, rho):
        K = np.zeros((self.n, self.n))
        for e, ed in zip(self.E(rho), self.edof):
            K[np.ix_(ed, ed)] += e * self.KE
        return K

    def ce(self, u):
        ue = np.asarray(u)[self.edof]
        return np.einsum("ei,ij,ej->e", ue, self.KE, ue)

    def dE(self, rho):
        a, b, p = self.mat
        return p * np.asarray(rho) ** (p - 1) * (b - a)


def fixed_x(ni, nj, nk, nx, ny, nz):
    return ni == 0


def fixed_z(ni, nj, nk, nx, ny, nz):
    return nk == 0


def fixed_corner(ni, nj, nk, nx, ny, nz):
    return (ni == 0) & ((nj == 0) | (nk == nz))


FIXED = dict(x=fixed_x, z=fixed_z, c=fixed_corner)
CAP = {}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class Tape:
    """What one driver run did."""

    def __init__(self, faults, res):
        self.faults = {(w, n): k for w, n, k in faults}
        self.count, self.res, self.fired = {}, res, None
        self.solves, self.outs, self.filters = [], [], []

    def point(self, what):
        n = self.count.get(what, 0)
        self.count[what] = n + 1
        k = self.faults.get((what, n))
        if k:
            self.fired = FAULTS[k](f"injected at {what} {n}")
            self.res.faults[f"{what}-raises"] += 1
            raise self.fired


def setup():
    import feax as fe
    from feax.gene import narrowband as nb
    if CAP:
        return
    CAP.update(fe=fe, nb=nb)

    class Spy(fe.NarrowBandCMG):
        tape, mode, seed, script, walk = None, "stub", 0, None, None

        def build(self, cells0, *a, **k):
            self.tape.point("build")
            lv = super().build(cells0, *a, **k)
            self.made = getattr(self, "made", []) + [(lv, np.array(cells0))]
            return lv

        def cells_of(self, levels):
            for lv, c in getattr(self, "made", []):
                if lv is levels:
                    return np.sort(c)
            raise Violation("foreign-levels", "a hierarchy that was not built by this object was used")

        def create_solver(self, levels, b, solver_options=None, jit=True, return_solution=True):
            t = self.tape
            t.point("create")
            real = None
            cells = self.cells_of(levels)
            if self.mode == "real":
                real = super().create_solver(levels, b, solver_options=solver_options, jit=jit,
                                             return_solution=return_solution)

            def solver(rho):
                t.point("solve")
                n = len(t.solves)
                r = np.array(rho, float)
                if r.shape != cells.shape:
                    raise Violation("wrong-band", f"solve {n}: design of {r.shape} cells given to a solver of a band of {cells.shape}")
                if real is not None:
                    u = np.asarray(real(rho))
                elif self.script is not None:
                    u = self.script[n][0]
                else:
                    g = np.random.default_rng([self.seed, n, cells.size])
                    u = g.standard_normal(levels[0]["ndof"])
                    if n == self.zero and self.posi:          # a failed solve: the sensitivity has to be told so
                        u[0] = np.nan
                t.solves.append(dict(cells=cells, rho=r, jit=bool(jit), b=np.array(b), u=np.array(u),
                                     opts=solver_options, levels=levels))
                return u
            return solver

        def compliance_and_dc(self, levels, rho_cells, u):
            t = self.tape
            t.point("compliance")
            n = len(t.solves) - 1
            s = t.solves[n] if t.solves else None
            if s is None or len(t.outs) != n:
                raise Violation("solve-count", f"{len(t.outs)} sensitivities and {len(t.solves)} solves")
            cells = self.cells_of(levels)
            if not np.array_equal(cells, s["cells"]):
                raise Violation("wrong-levels", f"iteration {n}: sensitivity on a band of {cells.size} cells, solved on {s['cells'].size}")
            if not np.array_equal(np.asarray(u), s["u"], equal_nan=True):
                raise Violation("stale-solution", f"iteration {n}: sensitivity of a displacement that is not the one just solved")
            if not np.array_equal(np.asarray(rho_cells), s["rho"]):
                raise Violation("stale-design", f"iteration {n}: sensitivity of a design that is not the one just solved")
            if self.mode == "real":
                c, dc = super().compliance_and_dc(levels, rho_cells, u)
            elif self.script is not None:
                c, dc = self.script[n][1:]
            else:
                c, dc = self.planned(n, cells)
            t.outs.append((s["u"], float(c), np.array(dc, float)))
            return c, np.array(dc)

        def planned(self, n, cells):
            """A sensitivity that moves material between two blobs of the domain."""
            g = np.random.default_rng([self.seed, 77, n])
            dims = (self.nelx, self.nely, self.nelz)
            if self.walk:
                return float(g.random() * 10), np.where(np.isin(cells, walk_cells(self.seed, dims, n + 1)), -1.0, -1e-9)
            x = np.stack(np.unravel_index(cells, dims), 1) / np.array(dims)
            c0 = np.random.default_rng([self.seed, 5, n // self.period % 2]).random(3)
            d = np.exp(-self.sharp * ((x - c0) ** 2).sum(1))
            if self.noise:
                d = d * g.random(cells.size)
            dc = -d * self.scale
            if self.zero is not None and n == self.zero:
                dc = dc * 0
            if self.posi:
                dc = np.where(g.random(cells.size) < 0.1, -dc, dc)
            return float(g.random() * 10), dc
    CAP["Spy"] = Spy


def walk_cells(seed, dims, n):
    """Two cells that mirror each other in the middle of the domain, moving cell by cell: the bands around them often have
    equally many cells and the same sum of cell numbers."""
    g = np.random.default_rng([seed, 13])
    p = [int(g.integers(d)) for d in dims]
    for _ in range(n):
        ax = [a for a in range(3) if dims[a] > 1]
        a = ax[int(g.integers(len(ax)))]
        p[a] = min(max(p[a] + (1 if g.random() < 0.5 else -1), 0), dims[a] - 1)
    q = [d - 1 - v for d, v in zip(dims, p)]
    return sorted({int(np.ravel_multi_index(p, dims)), int(np.ravel_multi_index(q, dims))})


def make_cmg(plan, dims, tape, seed_off=0):
    fe, Spy = CAP["fe"], CAP["Spy"]
    grid = fe.StructuredGrid(dims)
    c = Spy(grid, FIXED[plan["fixed"]], n_levels=plan["L"], nu=0.3, Emin=plan["Emin"], penal=plan["penal"],
            bucket=plan["bucket"], cg_tol=1e-9, cg_maxit=400)
    c.tape, c.mode, c.seed = tape, plan["mode"], plan["seed"] + seed_off
    c.period, c.sharp, c.noise, c.scale = plan["period"], plan["sharp"], plan["noise"], plan["scale"]
    c.zero, c.posi, c.walk = plan["zero"], plan["posi"], plan.get("walk")
    return grid, c


def keep_mask(plan, dims):
    k = np.zeros(dims, bool)
    if plan["mode"] == "real" or plan["keep"] >= 1:
        k[:, 0, dims[2] - 1] = True                        # load path from the support to the tip
        k[0, :, 0] = True
    k[dims[0] - 1, 0, dims[2] - 1] = True
    if plan["keep"] >= 2:
        g = np.random.default_rng([plan["seed"], 9])
        k |= g.random(dims) < 0.2
    return k


def load_nodes(dims):
    nx, ny, nz = dims
    return [(nx * (ny + 1) + j) * (nz + 1) + nz for j in (0, 1)]


def make_load(tape, dims):
    def load(c, lv):
        tape.point("load")
        return c.load_vector(lv, load_nodes(dims), 2, -1.0)
    return load


def gen_common(rng, real):
    return dict(mode="real" if real else "stub", seed=rng.randrange(10 ** 6),
                fixed=rng.choice(["x", "x", "c"]) if real else rng.choice("xzc"),
                L=rng.choice([1, 2]) if real else rng.choice([1, 2, 3]), Emin=rng.choice([1e-3, 1e-2]) if real else 1e-9,
                penal=rng.choice([3.0, 1.0, 2.0]), bucket=128 if real else rng.choice([1, 8, 512]),
                period=rng.choice([1, 2, 3]), sharp=rng.choice([2.0, 10.0, 40.0]), noise=rng.randrange(2),
                scale=rng.choice([1.0, 1e-6, 1e4, 1e-3]), zero=rng.choice([None, None, None, rng.randrange(6)]),
                posi=1 if rng.random() < 0.2 else 0, keep=rng.randrange(3),
                vf=rng.choice([0.2, 0.3, 0.5, 0.1, 0.8]), move=rng.choice([0.2, 0.5, 0.05, 1.0]),
                xmin=rng.choice([1e-3, 1e-3, 0.0, 1e-2]), thr=rng.choice([1e-2, 0.1, 0.3, 0.5]),
                margin=rng.choice([2, 1, 1, 0]), rmin=rng.choice([1.5, 1.0, 2.5, 1.2]),
                filt=rng.choice(["default", "default", "mine"]), verbose=rng.randrange(2))


def oc_kw(plan, tape, dims, filt_calls):
    kw = dict(move=plan["move"], xmin=plan["xmin"], threshold=plan["thr"], margin=plan["margin"], rmin=plan["rmin"],
              jit_after=plan["jit_after"], verbose=bool(plan["verbose"]), solver_options=options(plan))
    if plan["filt"] == "mine":
        def mine(active, rho, dc):
            tape.point("filter")
            filt_calls.append((np.array(active), np.array(rho), np.array(dc)))
            return np.asarray(dc) * 0.5
        kw["sensitivity_filter"] = mine
    return kw


def options(plan):
    if plan["mode"] != "real":
        return "token"
    return CAP["fe"].KrylovSolverOptions(solver="cg", tol=1e-10, maxiter=600)


def check_system(plan, dims, s, out, k):
    """The solve really solved the elasticity problem of this band and design."""
    D = Dense(dims, s["cells"], FIXED[plan["fixed"]], 0.3, plan["Emin"], 1.0, plan["penal"])
    b = np.zeros(D.n)
    b[3 * np.searchsorted(D.nodes, load_nodes(dims)) + 2] = -1.0
    r = (D.K(s["rho"]) @ s["u"] - b)[D.free]
    if s["u"].shape != (D.n,) or np.abs(s["u"][~D.free]).max(initial=0) > 1e-12 or np.abs(r).max() > 1e-6:
        raise Violation("wrong-solution", f"iteration {k}: residual {np.abs(r).max():.1e} on the band of {s['cells'].size} cells")
    ce = D.ce(s["u"])
    c = (D.E(s["rho"]) * ce).sum()
    eps = 1e-12 * float(np.abs(s["u"]).max()) ** 2          # rounding of large rigid motions of loose parts
    if abs(c - out[1]) > 1e-8 * abs(c) + eps * len(ce):
        raise Violation("wrong-compliance", f"iteration {k}: reported {out[1]!r}, truth {c!r}")
    dc = -D.dE(s["rho"]) * ce
    if np.abs(dc - out[2]).max() > 1e-8 * (1e-12 + np.abs(dc).max()) + eps:
        raise Violation("wrong-sensitivity", f"iteration {k}: sensitivity off by {np.abs(dc - out[2]).max():.2e}")


def check_run(plan, dims, rhos, tape, fcalls, hist, n_done, n_hist, gus, res, what=""):
    """Everything observable about the first n_done iterations."""
    keep = keep_mask(plan, dims)
    N = int(np.prod(dims))
    prev, changes = None, 0
    for k in range(n_done):
        s, out = tape.solves[k], tape.outs[k]
        rho = rhos[k]
        if k < gus:
            want = np.ones(dims, bool)
        else:
            want = dilate(rho.reshape(dims) > plan["thr"], plan["margin"]) | keep
        cells = np.flatnonzero(want)
        if not np.array_equal(cells, s["cells"]):
            raise Violation("wrong-band", f"{what}iteration {k}: solved a band of {s['cells'].size} cells, the design "
                            f"prescribes {cells.size} ({len(np.setxor1d(cells, s['cells']))} differ)")
        if not np.array_equal(s["rho"], rho[cells]):
            raise Violation("wrong-design", f"{what}iteration {k}: solved a design that is not the current one")
        D_n = 3 * Dense(dims, cells, FIXED[plan["fixed"]], 0.3, plan["Emin"], 1.0, plan["penal"]).nodes.size
        nodes = Dense(dims, cells, FIXED[plan["fixed"]], 0.3, plan["Emin"], 1.0, plan["penal"]).nodes
        b = np.zeros(D_n)
        b[3 * np.searchsorted(nodes, load_nodes(dims)) + 2] = -1.0
        if s["b"].shape != b.shape or not np.array_equal(s["b"], b):
            raise Violation("stale-load", f"{what}iteration {k}: the load is not that of the current band")
        ja = plan["jit_after"]
        if s["jit"] != (ja is not None and k >= ja):
            raise Violation("wrong-mode", f"{what}iteration {k}: compiled={s['jit']}, scheduled from {ja}")
        if plan["mode"] == "real":
            check_system(plan, dims, s, out, k)
        elif s["opts"] != "token":
            raise Violation("wrong-options", f"{what}iteration {k}: solver options were not passed on")
        dc = out[2]
        if plan["filt"] == "mine":
            a, r, d = fcalls[k]
            if not (np.array_equal(a, cells) and np.array_equal(r, rho[cells]) and np.array_equal(d, dc)):
                raise Violation("wrong-filter-input", f"{what}iteration {k}: the filter got something else than the current band")
            df = dc * 0.5
        else:
            df = filt_ref(dims, plan["rmin"], cells, rho[cells], dc)
        full = np.zeros(N)
        full[cells] = df
        new = rhos[k + 1]
        lo, hi = np.maximum(rho - plan["move"], plan["xmin"]), np.minimum(rho + plan["move"], 1.0)
        if new.shape != (N,) or not np.isfinite(new).all():
            raise Violation("bad-density", f"{what}iteration {k}: density shape {new.shape} or not finite")
        if (new < plan["xmin"] - 1e-12).any() or (new > 1 + 1e-12).any():
            raise Violation("bounds", f"{what}iteration {k}: density outside [{plan['xmin']}, 1]: {new.min()} {new.max()}")
        ok = np.maximum(np.abs(new - np.clip(rho, plan["xmin"], 1.0)), 0)
        if (ok > plan["move"] + 1e-9).any():
            raise Violation("move-limit", f"{what}iteration {k}: density moved by {ok.max()}, limit {plan['move']}")
        ref, reach = oc_ref(rho, full, plan["vf"], plan["move"], plan["xmin"])
        if reach and abs(new.mean() - plan["vf"]) > 2e-3:
            raise Violation("volume", f"{what}iteration {k}: volume {new.mean():.5f}, target {plan['vf']} was reachable")
        off = np.nanmax(np.append(np.abs(new - ref), 0.0))
        if off > 2e-3:
            raise Violation("wrong-update", f"{what}iteration {k}: density update off by {off:.2e}")
        if k < n_hist:
            h = hist[k]
            if (h[0] != k or abs(h[1] - out[1]) > 1e-9 * max(1, abs(out[1])) or abs(h[2] - cells.size / N) > 1e-12
                    or abs(h[3] - new.mean()) > 1e-12):
                raise Violation("wrong-history", f"{what}iteration {k}: history {h}, truth {(k, out[1], cells.size / N, new.mean())}")
        if prev is not None and not np.array_equal(prev, cells):
            changes += 1
            res.probes["band-grew" if cells.size > prev.size else "band-shrank" if cells.size < prev.size else "band-moved"] += 1
        prev = cells
        res.probes["volume-reachable" if reach else "volume-unreachable"] += 1
    return changes


def start_design(plan, N):
    g = np.random.default_rng([plan["seed"], 3])
    if plan.get("walk"):
        x = np.full(N, 1e-3)
        x[walk_cells(plan["seed"], tuple(plan["dims"]), 0)] = 1.0
        return x
    if plan["x0"] == "none":
        return None
    if plan["x0"] == "blob":
        x = np.where(g.random(N) < 0.3, 0.9, 0.0)
    else:
        x = g.random(N)
    return x


class Driver(Scenario):
    prop, name, weight = "P15", "driver", 5.0
    shrink_lists = ("faults",)
    real_mode = False

    def setup(self):
        setup()

    def gen(self, rng):
        real = self.real_mode
        p = gen_common(rng, real)
        p.update(dims=rng.choice([[4, 3, 3], [5, 3, 4]] if real else [[4, 3, 3], [6, 4, 2], [8, 3, 3], [5, 5, 4], [1, 2, 3], [10, 1, 2]]),
                 n_iter=rng.choice([2, 3, 4] if real else [1, 3, 5, 8]), gus=rng.choice([0, 1, 1, 2, 3]),
                 x0=rng.choice(["none", "blob", "rand"]), jit_after=rng.choice([0, 1, 2, None, 0] if real else [None, 0, 1, 3, 5, 99]),
                 shape3=rng.randrange(2), faults=[])
        if real and p["jit_after"] is None:
            p["n_iter"] = 2
        if not real and rng.random() < 0.3:
            p["dims"] = rng.choice([[12, 1, 1], [8, 3, 3], [10, 1, 2], [7, 5, 1]])
            p.update(walk=1, filt="mine", margin=1, move=1.0, xmin=1e-3, thr=0.1, vf=2.0 / np.prod(p["dims"]), gus=0,
                     keep=0, n_iter=rng.choice([5, 8]))
        if rng.random() < 0.3:
            w = rng.choice(["build", "load", "create", "solve", "compliance", "filter"])
            p["faults"].append([w, rng.randrange(p["n_iter"] + 1), rng.choice(list(FAULTS))])
        return p

    def simplify(self, p):
        for n in (1, 2, 3, 5):
            if n < p["n_iter"]:
                yield dict(p, n_iter=n)
        if p["jit_after"] is not None:
            yield dict(p, jit_after=None)
        if p.get("walk"):
            return
        for k, v in dict(posi=0, zero=None, noise=0, verbose=0, filt="mine", keep=0, x0="none").items():
            if p[k] != v:
                yield dict(p, **{k: v})

    def directed(self):
        if self.real_mode:
            return
        base = dict(gen_common(random.Random(1), False), dims=[4, 3, 3], n_iter=3, gus=1, x0="none", jit_after=1, shape3=0, filt="mine",
                    zero=None, posi=0)
        for w in ("build", "load", "create", "solve", "compliance", "filter"):
            for k in FAULTS:
                yield dict(base, faults=[[w, 1, k]])

    def drive(self, plan, res, n, faults, script=None):
        dims = tuple(plan["dims"])
        tape, fcalls = Tape(faults, res), []
        grid, cmg = make_cmg(plan, dims, tape)
        if script is not None:
            cmg.mode, cmg.script = "stub", script
        keep = keep_mask(plan, dims)
        x0 = start_design(plan, grid.num_cells)
        given = None if x0 is None else (x0.reshape(dims) if plan["shape3"] else x0)
        k0, x00 = keep.copy(), None if given is None else given.copy()
        kw = oc_kw(plan, tape, dims, fcalls)
        if script is not None:
            kw["solver_options"] = None
        exc = out = None
        try:
            out = quiet(CAP["nb"].run_narrowband_oc, grid, cmg, keep, plan["vf"], make_load(tape, dims), n_iter=n,
                        grid_update_start=plan["gus"], x_init=given, **kw)
        except Violation:
            raise
        except BaseException as e:      # noqa
            exc = e
            if tape.fired is None:
                raise
        if not np.array_equal(keep, k0) or (x00 is not None and not np.array_equal(given, x00)):
            raise Violation("input-changed", "the run changed the caller's start design or keep mask")
        return tape, fcalls, out, exc

    def execute(self, plan, res):
        dims = tuple(plan["dims"])
        N = int(np.prod(dims))
        n = plan["n_iter"]
        tape, fcalls, out, exc = self.drive(plan, res, n, plan["faults"])
        if tape.fired is not None:
            if exc is not tape.fired:
                raise Violation("failure-swallowed", f"{tape.fired!r} did not reach the caller ({exc!r}, {out is not None})")
            done = len(tape.outs)
            if plan["filt"] == "mine":
                done = min(done, len(fcalls))
            n_hist, hist = 0, []
        else:
            done = n
            if len(tape.solves) != n or len(tape.outs) != n:
                raise Violation("solve-count", f"{len(tape.solves)} solves in {n} iterations")
            hist, n_hist = out[1], n
            if len(hist) != n:
                raise Violation("wrong-history", f"{len(hist)} records of {n} iterations")
        x0 = start_design(plan, N)
        rhos = [np.full(N, plan["vf"]) if x0 is None else x0]
        script = tape.outs if plan["mode"] == "real" else None
        for k in range(1, done + 1):
            if k == n and tape.fired is None:
                rhos.append(np.asarray(out[0]))
            else:
                rhos.append(np.asarray(self.drive(plan, res, k, [], script)[2][0]))
        ch = check_run(plan, dims, rhos, tape, fcalls, hist, done, n_hist, plan["gus"], res)
        res.steps += done
        res.sim_time += done
        res.nontrivial = ch > 0 or tape.fired is not None
        for k in range(done):
            res.ev(k, tape.solves[k]["cells"].size, tape.solves[k]["jit"], float(np.round(rhos[k + 1].sum(), 6)))
        res.ev("fault", repr(tape.fired))
        res.states.add((plan["mode"], ch, plan["jit_after"], plan["gus"], plan["margin"], plan["filt"], repr(tape.fired)).__repr__())


class RealDriver(Driver):
    name, weight = "real-driver", 0.4
    real_mode = True


# ------------------------------------------------------- multi-resolution
def ladder_ref(dims, n, factor, floor):
    out = [tuple(dims)]
    while len(out) < n:
        c = tuple(max(floor, int(round(d / factor))) for d in out[0])
        if c == out[0]:
            break
        out.insert(0, c)
    return out


class Multires(Scenario):
    prop, name, weight = "P15", "multires", 2.0
    shrink_lists = ("faults",)

    def setup(self):
        setup()

    def gen(self, rng):
        p = gen_common(rng, False)
        p.update(thr=rng.choice([0.01037, 0.10173, 0.30119, 0.50231]),       # never equal to an interpolated density
                 dims=rng.choice([[8, 4, 4], [9, 5, 3], [6, 6, 2], [12, 4, 4], [11, 7, 3], [7, 11, 2]]), n_levels=rng.choice([1, 2, 2, 3]),
                 factor=rng.choice([2, 2, 3, 1.5]), floor=rng.choice([2, 2, 4, 12]), n_iter=rng.choice([1, 2, 4]),
                 coarse_iter=rng.choice([1, 2, 3, None]), gus=rng.choice([1, 1, 0, 2]),
                 jit_after=rng.choice([None, 0, 2]), faults=[])
        if rng.random() < 0.3:
            w = rng.choice(["build_fn", "build", "load", "create", "solve", "compliance", "filter"])
            p["faults"].append([w, rng.randrange(4), rng.choice(list(FAULTS))])
        return p

    def execute(self, plan, res):
        nb = CAP["nb"]
        tape, fcalls, built = Tape(plan["faults"], res), [], []
        start = []

        def build_fn(nx, ny, nz):
            tape.point("build_fn")
            d = (nx, ny, nz)
            start.append((len(tape.solves), len(fcalls)))
            grid, cmg = make_cmg(plan, d, tape, len(built))
            built.append(d)
            # each level continues the numbering of the planned sensitivities
            return dict(grid=grid, cmg=cmg, keep=keep_mask(plan, d), load_fn=make_load(tape, d))
        kw = oc_kw(plan, tape, None, fcalls)
        if plan["coarse_iter"] is not None:
            kw["coarse_iter"] = plan["coarse_iter"]
        try:
            out = quiet(nb.run_narrowband_multires, build_fn, tuple(plan["dims"]), plan["vf"], n_levels=plan["n_levels"],
                        coarse_factor=plan["factor"], n_iter=plan["n_iter"], grid_update_start=plan["gus"],
                        floor=plan["floor"], **kw)
        except Violation:
            raise
        except BaseException as e:      # noqa
            if tape.fired is None:
                raise
            if e is not tape.fired:
                raise Violation("failure-swallowed", f"{tape.fired!r} reached the caller as {e!r}")
            res.nontrivial = True
            res.ev("fault", repr(e), len(tape.solves))
            res.states.add(("mr-fault", repr(e), len(built)).__repr__())
            return
        if tape.fired is not None:
            raise Violation("failure-swallowed", f"{tape.fired!r} did not reach the caller")
        lad = ladder_ref(plan["dims"], plan["n_levels"], plan["factor"], plan["floor"])
        if built != lad or [tuple(x) for x in out["levels"]] != lad or len(out["history"]) != len(lad):
            raise Violation("wrong-ladder", f"levels {built}, expected {lad}")
        ci = plan["coarse_iter"] if plan["coarse_iter"] is not None else max(10, plan["n_iter"] // 2)
        seed_rho, pos = None, 0
        for l, d in enumerate(lad):
            want = plan["n_iter"] if l == len(lad) - 1 else ci
            h = out["history"][l]
            if h["level"] != l or tuple(h["dims"]) != d or len(h["history"]) != want:
                raise Violation("wrong-iterations", f"level {l} {d}: {len(h['history'])} iterations, {want} were asked for")
            N = int(np.prod(d))
            x0 = np.full(N, plan["vf"]) if l == 0 else upsample_ref(seed_rho, d).reshape(-1)
            gus = plan["gus"] if l == 0 else 0
            # replay the level through the one-resolution driver, prefix by prefix
            sub = Tape([], res)
            sub.solves, sub.outs = tape.solves[pos:pos + want], tape.outs[pos:pos + want]
            if len(sub.solves) != want:
                raise Violation("solve-count", f"level {l}: {len(sub.solves)} solves")
            rhos = [x0]
            for k in range(1, want + 1):
                t2 = Tape([], res)
                grid, cmg = make_cmg(plan, d, t2, l)
                cmg.script = sub.outs
                f2 = []
                kw2 = oc_kw(plan, t2, d, f2)
                rhos.append(np.asarray(quiet(nb.run_narrowband_oc, grid, cmg, keep_mask(plan, d), plan["vf"],
                                             make_load(t2, d), n_iter=k, grid_update_start=gus, x_init=x0, **kw2)[0]))
            s0 = sub.solves[0]
            if np.abs(s0["rho"] - x0[s0["cells"]]).max() > 1e-9:
                raise Violation("wrong-seed", f"level {l}: not seeded from the previous level (off by "
                                f"{np.abs(s0['rho'] - x0[s0['cells']]).max():.2e})")
            for s, r in zip(sub.solves, rhos):         # identical up to rounding of the seed
                if s["rho"].shape == r[s["cells"]].shape and np.abs(s["rho"] - r[s["cells"]]).max() < 1e-9:
                    s["rho"] = r[s["cells"]]
            fc = [(a, rhos[i][a] if np.abs(r - rhos[i][a]).max() < 1e-9 else r, dd)
                  for i, (a, r, dd) in enumerate(fcalls[start[l][1]:start[l][1] + want])]
            check_run(plan, d, rhos, sub, fc, h["history"], want, want, gus, res, f"level {l} ")
            pos += want
            seed_rho = rhos[-1].reshape(d)
        x = np.asarray(out["x"])
        if x.shape != tuple(plan["dims"]) or np.abs(x - seed_rho).max() > 1e-9:
            raise Violation("wrong-result", "the returned density is not that of the finest level")
        if pos != len(tape.solves):
            raise Violation("solve-count", f"{len(tape.solves)} solves, {pos} expected")
        res.steps += pos
        res.sim_time += pos
        res.nontrivial = len(lad) > 1
        res.ev(lad, pos, float(np.round(x.sum(), 6)))
        res.states.add(("mr", len(lad), plan["gus"], plan["jit_after"], pos).__repr__())


# ------------------------------------------------ solver histories, real
class Solvers(Scenario):
    prop, name, weight = "P15", "solvers", 0.7
    shrink_lists = ("ops",)

    def setup(self):
        setup()

    def gen(self, rng):
        ops, n = [], 0
        twin = rng.random() < 0.5
        lim = {} if rng.random() < 0.5 else dict(lim=rng.choice([2, 3, 5]))
        for _ in range(rng.choice([3, 5, 8])):
            if n == 0 or rng.random() < 0.5:
                ops.append(dict(op="make", obj=rng.randrange(2), band=rng.choice([4, 5, 4, 5, 0, 1] if twin else [0, 1, 2, 3]), comp=rng.randrange(3),
                                val=rng.choice([-1.0, 2.0]), jit=1 if rng.random() < 0.9 else 0,
                                opt=rng.choice(["cg", "cg", "bicgstab", "gmres", "loose"]), sol=rng.randrange(2)))
                n += 1
            ops.append(dict(op=rng.choice(["call", "call", "call", "grad"]), s=rng.randrange(8), rho=rng.randrange(3),
                            tp=rng.randrange(2)))
        return dict(ops=ops, dims=[4, 4, 3] if twin else rng.choice([[4, 3, 3], [5, 3, 4]]), L=2 if twin else rng.choice([1, 2]), seed=rng.randrange(1000),
                    penal=rng.choice([3.0, 1.0, 2.0]), fixed=rng.choice("xcz" if twin else "xc"), **lim)

    def normalise(self, p):
        return p if p["ops"] and p["ops"][0]["op"] == "make" else None

    def directed(self):
        mk = lambda band, opt="cg", obj=0, comp=2, jit=1, sol=0: dict(op="make", obj=obj, band=band, comp=comp, val=-1.0, jit=jit, opt=opt, sol=sol)  # noqa
        call = lambda s, rho=0, tp=0: dict(op="call", s=s, rho=rho, tp=tp)  # noqa
        grad = lambda s, rho=0: dict(op="grad", s=s, rho=rho, tp=0)  # noqa
        for seed, jit in ((4, 1), (5, 1)):           # mirrored bands: equal sizes on every level
            yield dict(ops=[mk(4, jit=jit), call(0), mk(5, jit=jit), call(1), grad(1), call(0, 1), grad(0)], dims=[4, 4, 3], L=2,
                       seed=seed, penal=3.0, fixed="zx"[seed % 2])
        for a, b in (("loose", "cg"), ("cg", "loose"), ("cg", "bicgstab"), ("gmres", "cg")):
            yield dict(ops=[mk(4, a), call(0), mk(5, b), call(1), mk(4, b), call(2)], dims=[4, 4, 3], L=2, seed=3, penal=3.0, fixed="x", lim=3)

    @staticmethod
    def band(plan, which, base, g):
        if which < 4:
            return np.flatnonzero(base | (g.random(base.shape) < (0.0, 0.3, 0.7, 1.1)[which]))
        g = np.random.default_rng([plan["seed"], 4])         # 4 and 5 mirror each other
        extra = g.random(base.shape) < 0.3
        if which == 5:
            extra = extra[:, ::-1, :]
        return np.flatnonzero(base | base[:, ::-1, :] | extra)

    def execute(self, plan, res):
        import jax
        import jax.numpy as jnp
        fe = CAP["fe"]
        dims = tuple(plan["dims"])
        N = int(np.prod(dims))
        grid = fe.StructuredGrid(dims)
        Emin = 1e-2
        lim = plan.get("lim")

        def cmg(i):
            return fe.NarrowBandCMG(grid, FIXED[plan["fixed"]], n_levels=plan["L"], nu=(0.3, 0.2)[i], Emin=Emin,
                                    penal=plan["penal"] + i, bucket=128, cg_tol=1e-9, cg_maxit=lim or 500)

        def solver(o, band, op):
            lv = o.build(band)
            b = o.load_vector(lv, load_nodes(dims), op["comp"], op["val"])
            so = fe.KrylovSolverOptions(solver="cg" if op["opt"] == "loose" else op["opt"],
                                        tol=1e-2 if op["opt"] == "loose" else 1e-10,
                                        maxiter=100 if op["opt"] == "gmres" else 600)
            return lv, o.create_solver(lv, b, solver_options=so, jit=bool(op["jit"]), return_solution=bool(op["sol"]))
        objs = [cmg(i) for i in range(2)]
        base = keep_mask(dict(mode="real", keep=1, seed=0), dims)
        live, used = [], set()
        for n, op in enumerate(plan["ops"]):
            res.steps += 1
            if op["op"] == "make":
                g = np.random.default_rng([plan["seed"], op["band"]])
                band = self.band(plan, op["band"], base, g)
                o = objs[op["obj"]]
                lv, s = solver(o, band, op)
                D = Dense(dims, band, FIXED[plan["fixed"]], (0.3, 0.2)[op["obj"]], Emin, 1.0, plan["penal"] + op["obj"])
                want = np.zeros(D.n)
                want[3 * np.searchsorted(D.nodes, load_nodes(dims)) + op["comp"]] = op["val"]
                live.append((s, o, lv, band, D, want, op))
                res.probes["make-" + op["opt"]] += 1
                continue
            if not live:
                continue
            i = op["s"] % len(live)
            s, o, lv, band, D, want, mk = live[i]
            used.add(i)
            g = np.random.default_rng([plan["seed"], 31, op["rho"]])
            lo = 0.05 if mk["opt"] == "cg" else 0.6            # inexact inner solves: well-conditioned designs only
            rho = (lo + (1 - lo) * g.random(N))[band]
            arg = jnp.asarray(rho)
            wrap = (lambda r: fe.TracedParams(volume_vars=(r,))) if op["tp"] else (lambda r: r)
            tol = 1e-6 if mk["opt"] != "loose" else 1e-5
            K = D.K(rho)
            Kf = np.where(np.outer(D.free, D.free), K, 0.0) + np.diag(1.0 * ~D.free)
            cond = np.linalg.cond(Kf)
            if cond > 1e7:
                res.probes["skipped-singular"] += 1
                continue
            u_ref = np.linalg.solve(Kf, np.where(D.free, want, 0.0))
            w = g.standard_normal(D.n)
            if lim:
                # too few iterations to converge: whatever the answer is, a fresh object of the same kind must give it too
                both = []
                for q in (s, solver(cmg(mk["obj"]), band, mk)[1]):
                    f = lambda r: jnp.ravel(getattr(q(wrap(r)), "dofs", None) if mk["sol"] else q(wrap(r)))  # noqa
                    both.append(np.asarray(f(arg) if op["op"] == "call" else jax.grad(lambda r: jnp.dot(jnp.asarray(w), f(r)))(arg)))
                e = np.abs(both[0] - both[1]).max()
                if not e <= 1e-6 * np.abs(both[1]).max():
                    raise Violation("depends-on-history", f"op {n}: {op['op']} of solver {i} of {len(live)} ({mk['opt']}) is off by {e:.1e} "
                                    f"of {np.abs(both[1]).max():.1e} from that of a fresh object")
                res.probes["compared-fresh"] += 1
                res.ev(n, op["op"], i, float(f"{both[1].sum():.2e}"))
                res.sim_time += 1
                continue
            if op["op"] == "call":
                out = s(wrap(arg))
                u = np.asarray(out.dofs if hasattr(out, "dofs") else out).reshape(-1)
                if u.shape != (D.n,):
                    raise Violation("wrong-solution", f"op {n}: {u.shape} values for a band of {D.n} unknowns")
                r = np.abs((K @ u - want)[D.free]).max()
                if r > tol * 2 or np.abs(u - u_ref).max() > max(1e-6, cond * 2e-8) * np.abs(u_ref).max():
                    raise Violation("wrong-solution", f"op {n}: residual {r:.1e}, error {np.abs(u - u_ref).max():.1e} "
                                    f"(solver {i} of {len(live)}, {mk['opt']})")
                c, dc = o.compliance_and_dc(lv, wrap(arg), u)
                ce, eps = D.ce(u), 1e-12 * float(np.abs(u).max()) ** 2
                if abs(c - (D.E(rho) * ce).sum()) > 1e-8 * abs(c) + eps * len(ce) or np.abs(dc + D.dE(rho) * ce).max() > 1e-8 * np.abs(dc).max() + eps:
                    raise Violation("wrong-sensitivity", f"op {n}: compliance or sensitivity of another band")
                res.ev(n, "call", i, float(f"{u_ref.sum():.5e}"))
            else:
                f = lambda r: jnp.dot(jnp.asarray(w), jnp.ravel(getattr(s(wrap(r)), "dofs", None) if mk["sol"] else s(wrap(r))))  # noqa
                gr = np.asarray(jax.grad(f)(arg))
                lam = np.linalg.solve(Kf, np.where(D.free, w, 0.0))
                ue, le = u_ref[D.edof], lam[D.edof]
                ref = -D.dE(rho) * np.einsum("ei,ij,ej->e", le, D.KE, ue)
                if np.abs(gr - ref).max() > max(1e-5, cond * 2e-8) * (1e-9 + np.abs(ref).max()):
                    raise Violation("wrong-gradient", f"op {n}: gradient off by {np.abs(gr - ref).max():.1e} of {np.abs(ref).max():.1e} "
                                    f"(solver {i} of {len(live)})")
                res.ev(n, "grad", i, float(f"{ref.sum():.4e}"))
            res.sim_time += 1
            res.states.add((op["op"], mk["opt"], mk["jit"], mk["band"], len(live), i, op["tp"]).__repr__())
        res.nontrivial = len(used) > 1


# ------------------------------------------ superset bands, sparse designs
class Bands(Scenario):
    prop, name, weight = "P15", "bands", 1.5
    shrink_lists = ("ops",)

    def setup(self):
        setup()
        fe = CAP["fe"]
        self.meshes = {}
        for d in ((5, 4, 1), (4, 3, 3), (9, 1, 1)):
            self.meshes[d] = fe.StructuredGrid(d).to_mesh()

    def gen(self, rng):
        ops = []
        for _ in range(rng.choice([4, 8, 14])):
            k = rng.choice(["step", "step", "step", "force", "maps", "design", "design", "band"])
            ops.append(dict(op=k, pos=rng.randrange(50), size=rng.choice([1, 1, 2, 4, 9]), seed=rng.randrange(1000),
                            margin=rng.randrange(3)))
        return dict(ops=ops, dims=rng.choice([[5, 4, 1], [4, 3, 3], [9, 1, 1]]), margin=rng.choice([2, 1, 3, 0]),
                    guard=rng.choice([1, 0, 2]))

    def execute(self, plan, res):
        fe = CAP["fe"]
        dims = tuple(plan["dims"])
        mesh = self.meshes[dims]
        grid = fe.StructuredGrid(dims)
        N = grid.num_cells
        cells = np.asarray(mesh.cells)
        touch = (cells[:, None, :, None] == cells[None, :, None, :]).any((2, 3))

        def ring(s, n):
            for _ in range(n):
                s = {j for i in s for j in np.flatnonzero(touch[i])}
            return s

        mgr = fe.SupersetBand(mesh, margin=plan["margin"], guard=plan["guard"])
        sup, store, sd = None, {}, fe.SparseDesign([], [])
        moved = 0
        for n, op in enumerate(plan["ops"]):
            res.steps += 1
            g = np.random.default_rng(op["seed"])
            act = np.unique((op["pos"] + np.arange(op["size"]) * (1 + op["seed"] % 3)) % N)
            if op["op"] in ("step", "force"):
                need = bool(mgr.needs_reextract(act))
                true = sup is None or not ring(set(act), plan["guard"]) <= sup
                if need != true:
                    raise Violation("wrong-reextract", f"op {n}: needs_reextract={need}, the guarded band is "
                                    f"{'outside' if true else 'inside'} the superset")
                if need or op["op"] == "force":
                    band = mgr.reextract(act)
                    new = ring(set(act), plan["margin"])
                    if set(np.asarray(band.active_cells).tolist()) != new or mgr.band is not band:
                        raise Violation("wrong-superset", f"op {n}: superset of {band.num_active_cells} cells, expected {len(new)}")
                    moved += sup is not None and new != sup
                    sup = new
                    self.check_band(n, band, mesh, grid)
            elif op["op"] == "maps":
                if sup is None:
                    continue
                f = g.random(N)
                ids = np.asarray(mgr.band.active_cells)
                m = np.asarray(mgr.map_cells(f))
                if not np.array_equal(m, f[ids]):
                    raise Violation("wrong-map", f"op {n}: superset field is not that of the superset's cells")
                back = mgr.scatter_cells(m, fill=-1.0)
                want = np.full(N, -1.0)
                want[ids] = f[ids]
                if not np.array_equal(back, want):
                    raise Violation("wrong-map", f"op {n}: scatter to the full domain")
                u = g.random((len(mgr.band.node_map), 3))
                full = np.asarray(mgr.scatter_sol(u.reshape(-1), 3)).reshape(-1, 3)
                want = np.zeros((grid.num_nodes, 3))
                want[np.asarray(mgr.band.node_map)] = u
                if not np.array_equal(full, want) or not np.array_equal(np.asarray(mgr.band.gather_sol(full, 3)), u.reshape(-1)):
                    raise Violation("wrong-map", f"op {n}: solution maps")
            elif op["op"] == "design":
                vals = g.random(act.size)
                vals[g.random(act.size) < 0.2] = 0.5                # exactly at the threshold: not above it
                perm = g.permutation(act.size)
                if op["seed"] % 2:
                    sd = sd.update(act[perm], vals[perm])
                else:
                    from feax import TracedParams
                    import jax.numpy as jnp
                    sd = sd.updated(act[perm], TracedParams(volume_vars=(jnp.asarray(vals[perm]),)))
                store.update(zip(act.tolist(), vals.tolist()))
                q = g.permutation(N)
                if not np.array_equal(sd.gather(q, default=0.25), [store.get(int(i), 0.25) for i in q]):
                    raise Violation("wrong-design", f"op {n}: stored values differ from the values written")
                tp = sd.traced_params(q, default=0.5)
                if np.abs(np.asarray(tp.volume_vars[0]) - [store.get(int(i), 0.5) for i in q]).max() > 1e-12:
                    raise Violation("wrong-design", f"op {n}: traced parameters differ from the values written")
                keep = act[:1] if op["seed"] % 3 == 0 else np.unique(g.integers(0, N, 2))
                band = sd.band_cells(grid, 0.5, margin=op["margin"], keep_ids=keep)
                m = np.zeros(dims, bool)
                for i, v in store.items():
                    if v > 0.5:
                        a = np.unravel_index(i, dims)
                        m[tuple(slice(max(0, x - op["margin"]), x + op["margin"] + 1) for x in a)] = True
                m.reshape(-1)[keep] = True
                if not np.array_equal(np.sort(band), np.flatnonzero(m)):
                    raise Violation("wrong-band", f"op {n}: band of the sparse design has {len(band)} cells, expected {m.sum()}")
            elif op["op"] == "band":
                f = g.random(N)
                f[g.random(N) < 0.1] = 0.75
                b = fe.NarrowBand.from_field(mesh, f, 0.75, margin=op["margin"], keep_cells=act)
                want = ring(set(np.flatnonzero(f > 0.75)), op["margin"]) | set(act.tolist())
                if set(np.asarray(b.active_cells).tolist()) != want:
                    raise Violation("wrong-band", f"op {n}: field band has {b.num_active_cells} cells, expected {len(want)}")
                self.check_band(n, b, mesh, grid)
            res.ev(n, op["op"], None if sup is None else len(sup), len(store))
            res.states.add((op["op"], plan["margin"], plan["guard"], None if sup is None else len(sup) * 4 // N, moved).__repr__())
        res.sim_time += len(plan["ops"])
        res.nontrivial = moved > 0 or len(store) > 1

    def check_band(self, n, band, mesh, grid):
        P, C = np.asarray(mesh.points), np.asarray(mesh.cells)
        ids, nm = np.asarray(band.active_cells), np.asarray(band.node_map)
        bp, bc = np.asarray(band.mesh.points), np.asarray(band.mesh.cells)
        if not (np.array_equal(nm[bc], C[ids]) and np.array_equal(bp, P[nm]) and len(np.unique(bc)) == len(nm)):
            raise Violation("wrong-submesh", f"op {n}: the band's mesh is not the active part of the domain")


SCENARIOS = [Driver(), RealDriver(), Multires(), Solvers(), Bands()]
