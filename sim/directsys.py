"""Sparse test systems with known dense reference solutions, and seams over the
direct-solver backends (sksparse, scipy)."""
import json

import numpy as np

from . import sched
from .core import Violation

# ------------------------------------------------------------------ systems
_PAT = {}
_JIT = {}
_uid = [0]


def fresh_uid():
    """A cache namespace no earlier execution in this process has used."""
    _uid[0] += 1
    import sys
    for name, m in list(sys.modules.items()):
        if name.startswith("feax.solvers.direct") and m is not None:
            for v in list(vars(m).values()):
                if hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
                    v.cache_clear()
    return f"sim{_uid[0]}"



def pattern(pid, n):
    """Boolean structurally-symmetric n x n pattern with full diagonal."""
    key = (pid, n)
    if key in _PAT:
        return _PAT[key]
    M = np.eye(n, dtype=bool)
    if pid == 0:                                   # tridiagonal
        for i in range(n - 1):
            M[i, i + 1] = M[i + 1, i] = True
    elif pid == 1:                                 # arrow at the first row: same nnz as 0
        M[0, :] = True
        M[:, 0] = True
    elif pid == 2:                                 # arrow at the last row: same nnz as 0
        M[-1, :] = True
        M[:, -1] = True
    elif pid == 3:                                 # dense
        M[:] = True
    elif pid == 4:                                 # tridiagonal of a reversed pairing
        idx = list(range(0, n, 2)) + list(range(1, n, 2))
        for a, b in zip(idx[:-1], idx[1:]):
            M[a, b] = M[b, a] = True
    elif pid == 5:                                 # diagonal
        pass
    elif pid == 6:                                 # 6 and 7: equal column arrays, other row offsets
        M[0, 1] = True
    elif pid == 7:
        M[2, 1] = True
    elif pid in (8, 9):                            # 8 and 9: equal row offsets, other columns
        if pid == 9 and n == 6:                    # two triangles: another fill than the ring of 8
            rings = [[0, 1, 2], [3, 4, 5]]
        else:
            rings = [list(range(n)) if pid == 8 else list(range(0, n, 2)) + list(range(1, n, 2))]
        for idx in rings:
            for a, b in zip(idx, idx[1:] + idx[:1]):
                M[a, b] = M[b, a] = True
    elif pid == 10:                                # 10 and 11: equal row offsets, other column counts
        M[:, 0] = True
        M[0, 1] = True
    elif pid == 11:
        for i in range(n):
            M[i, (i + 1) % n] = True
    _PAT[key] = M
    return M


def make_system(spec):
    """spec: dict(pid, n, vs, bs, tw, sym, bad, f32) -> (indptr, indices, data, b, dense)"""
    n, M = spec["n"], pattern(spec["pid"], spec["n"])
    tri = spec.get("tri")
    r = np.random.RandomState(spec["vs"] % (2 ** 31))
    A = r.uniform(-1, 1, (n, n))
    if spec.get("sym", True):
        A = (A + A.T) / 2
    A = np.where(M, A, 0.0)
    np.fill_diagonal(A, 0.0)
    A += np.diag(np.abs(A).sum(1) + np.abs(A).sum(0) + r.uniform(0.5, 2.0, n))
    tw = spec.get("tw", 0)
    if tw == 1:                                    # barely different values
        k = spec["vs"] % n
        A[k, k] *= 1.0 + 1e-6
    elif tw == 2:                                  # same multiset of entries, other places
        P = np.roll(np.arange(n), 1)
        if (M[np.ix_(P, P)] == M).all():
            A = A[np.ix_(P, P)]
        else:
            d = np.diag(A).copy()
            d = np.roll(d, 1) + np.abs(A).sum()
            np.fill_diagonal(A, d)
    elif tw == 3:                                  # scaled
        A = A * 3.0
    bad = spec.get("bad")
    if bad == "singular":                          # a row and column of explicit zeros
        k = spec["vs"] % n
        A[k, :] = 0.0
        A[:, k] = 0.0
    elif bad == "indefinite":
        k = spec["vs"] % n
        A[k, k] = -A[k, k]
    elif bad == "nan":
        A[0, 0] = np.nan
    b = np.random.RandomState(spec["bs"] % (2 ** 31)).uniform(-2, 2, n)
    if tri:                                        # only one triangle is stored
        M = np.triu(M) if tri == "U" else np.tril(M)
    rows, cols = np.nonzero(M)
    data = A[rows, cols]
    indptr = np.concatenate([[0], np.cumsum(M.sum(1))]).astype(np.int32)
    dt = np.float32 if spec.get("f32") else np.float64
    return (indptr, cols.astype(np.int32), data.astype(dt), b.astype(dt),
            A.astype(dt).astype(np.float64))


def solvable(spec, backend):
    bad = spec.get("bad")
    if bad is None:
        return True
    if bad == "indefinite":
        return backend != "cholmod"
    return False


# -------------------------------------------------------------------- seams
class Backend:
    """Instrumented backends: preemption and failure points around every call."""

    def __init__(self):
        self.calls = 0
        self.plan = {}          # call index -> fault kind
        self.fired = []
        self.on_fault = None
        self.on_call = None
        self.installed = False

    def arm(self, faults, on_fault):
        self.calls = 0
        self.plan = dict(faults)
        self.on_fault = on_fault
        self.fired = []

    def disarm(self):
        self.plan = {}
        self.on_fault = None

    def call(self, name, fn, *a, **k):
        i = self.calls
        self.calls += 1
        kind = self.plan.get(i)
        sched.point(name + ".pre", "seam")
        if kind == "before":
            self._fire(name, kind)
        if self.on_call:
            self.on_call(name)
        out = fn(*a, **k)
        if kind == "after":
            self._fire(name, kind)
        sched.point(name + ".post", "seam")
        return out

    def _fire(self, name, kind):
        self.fired.append((name, kind))
        if self.on_fault:
            self.on_fault(name, kind)
        raise MemoryError(f"injected failure {kind} {name}")

    def install(self):
        if self.installed:
            return
        self.installed = True
        be = self

        class Proxy:
            def __init__(self, f, tag):
                self.__dict__["_f"] = f
                self.__dict__["_tag"] = tag

            def __getattr__(self, k):
                v = getattr(self._f, k)
                if k in ("factorize", "solve", "refactorize") and callable(v):
                    tag = self._tag
                    return lambda *a, **kw: be.call(f"{tag}.{k}", v, *a, **kw)
                return v

            def __setattr__(self, k, v):
                setattr(self._f, k, v)

        def wrap_factory(mod, name, tag):
            orig = getattr(mod, name, None)
            if orig is None:
                return

            def w(*a, **k):
                return Proxy(be.call(name, orig, *a, **k), tag)
            w.__name__ = name
            setattr(mod, name, w)

        def wrap(mod, name):
            orig = getattr(mod, name, None)
            if orig is None:
                return

            def w(*a, **k):
                return be.call(name, orig, *a, **k)
            w.__name__ = name
            setattr(mod, name, w)

        import scipy.sparse.linalg as spla
        import sksparse.cholmod as ch
        import sksparse.umfpack as um
        wrap_factory(ch, "cho_factor", "chol")
        wrap_factory(um, "umf_factor", "umf")
        for nm in ("cho_solve", "cholesky"):
            wrap(ch, nm)
        for nm in ("umf_solve",):
            wrap(um, nm)
        wrap(spla, "spsolve")
        wrap_factory(spla, "splu", "splu")
        wrap_factory(spla, "factorized", "splu")


BACKEND = Backend()
_ready = False


def setup():
    """Seams first, then the code under test."""
    global _ready
    if _ready:
        return
    _ready = True
    import os
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from .core import REPO
    sched.install_locks(REPO)
    sched.install_pure_callback()
    BACKEND.install()
    import feax  # noqa
    import feax.solvers.direct  # noqa
    assert os.path.realpath(feax.__file__).startswith(os.path.realpath(REPO)), feax.__file__
    sched.install_line_points([os.path.join(os.path.realpath(REPO), "feax", "solvers", "direct")])
    silence_native_stderr()


def silence_native_stderr():
    """CHOLMOD prints warnings on C stdout/stderr; keep worker logs readable."""


# -------------------------------------------------------------- solve an op
def solve_op(op, ns):
    """Carry out one solve through the public API; returns np.ndarray."""
    import jax
    import jax.numpy as jnp
    from feax.solvers import direct as D
    be = op["be"]
    kw = {}
    if be == "cholmod":
        f = D.cholmod_solve
        kw = dict(lower=bool(op.get("lower", 0)), order=op.get("order", "default"),
                  cache_namespace=ns)
    elif be == "umfpack":
        f = D.umfpack_solve
        kw = dict(trans=op.get("trans", "N"), cache_namespace=ns)
    else:
        f = D.spsolve
        kw = dict(reorder=op.get("reorder", 1))
    specs = op["sys"]
    if op.get("vm"):
        kw["vmap_method"] = op["vm"]
    sysm = [make_system(s) for s in specs]
    pad = op.get("pad", 0)
    if pad:                                        # entries behind the last row, as padded sparse formats have
        n = specs[0]["n"]
        sysm = [(a, np.concatenate([c, np.full(pad, n, c.dtype)]), np.concatenate([d, np.full(pad, 7.5, d.dtype)]), b, A)
                for a, c, d, b, A in sysm]
    ip, ix = jnp.asarray(sysm[0][0]), jnp.asarray(sysm[0][1])
    kind = op["kind"]
    if kind == "single":
        _, _, d, b, _ = sysm[0]
        g = lambda b, d: f(b, d, ip, ix, **kw)      # noqa
        args = (jnp.asarray(b), jnp.asarray(d))
    elif kind == "vmap_b":
        g = jax.vmap(lambda b, d: f(b, d, ip, ix, **kw), in_axes=(0, None))
        args = (jnp.asarray(np.stack([s[3] for s in sysm])), jnp.asarray(sysm[0][2]))
    elif kind == "vmap_all":
        m = len(specs)
        g = lambda b, d: jax.vmap(lambda b, d, p, x: f(b, d, p, x, **kw))(      # noqa
            b, d, jnp.stack([ip] * m), jnp.stack([ix] * m))
        args = (jnp.asarray(np.stack([s[3] for s in sysm])), jnp.asarray(np.stack([s[2] for s in sysm])))
    elif kind == "vmap2":                          # two levels: values batched outside, right hand sides inside
        g = jax.vmap(jax.vmap(lambda b, d: f(b, d, ip, ix, **kw), in_axes=(0, None)), in_axes=(None, 0))
        args = (jnp.asarray(np.stack([s[3] for s in sysm])), jnp.asarray(np.stack([s[2] for s in sysm])))
    elif kind == "vmap_v":
        g = jax.vmap(lambda b, d: f(b, d, ip, ix, **kw), in_axes=(None, 0))
        args = (jnp.asarray(sysm[0][3]), jnp.asarray(np.stack([s[2] for s in sysm])))
    else:
        g = jax.vmap(lambda b, d: f(b, d, ip, ix, **kw))
        args = (jnp.asarray(np.stack([s[3] for s in sysm])),
                jnp.asarray(np.stack([s[2] for s in sysm])))
    if op.get("jit"):
        key = (op["be"], kind, ns, json.dumps({k: v for k, v in op.items() if k not in ("sys", "ns")},
                                              sort_keys=True), specs[0]["pid"], specs[0].get("tri"), specs[0]["n"], len(specs),
               str(args[0].dtype))
        jf = _JIT.get(key)
        if jf is None:
            jf = _JIT[key] = jax.jit(g)
        out = jf(*args)
    else:
        with jax.disable_jit():
            out = g(*args)
    return np.asarray(out)


def reference(op):
    specs = op["sys"]
    out = []
    base = make_system(specs[0])
    if op["kind"] == "vmap2":
        tr = op["be"] == "umfpack" and op.get("trans", "N") != "N"
        ms = [make_system(s) for s in specs]
        return np.stack([np.stack([np.linalg.solve(a[4].T if tr else a[4], b[3].astype(np.float64)) for b in ms])
                         for a in ms])
    for s in specs:
        _, _, _, b, A = make_system(s)
        if op["kind"] == "vmap_b":
            A = base[4]
        if op["kind"] == "vmap_v":
            b = base[3]
        if op["be"] == "umfpack" and op.get("trans", "N") != "N":
            A = A.T
        out.append(np.linalg.solve(A, b.astype(np.float64)))
    return out[0] if op["kind"] == "single" else np.stack(out)


def op_solvable(op):
    sp = op["sys"] if op["kind"] not in ("vmap_b", "single") else op["sys"][:1]
    return all(solvable(s, op["be"]) for s in sp)


def compare(op, got):
    """None if right, otherwise a message."""
    ref = reference(op)
    f32 = op["sys"][0].get("f32")
    tol = 3e-4 if f32 else 2e-10
    if got.shape != ref.shape:
        return f"shape {got.shape} instead of {ref.shape}"
    if not np.all(np.isfinite(got)):
        return "non-finite result for a solvable system"
    err = np.max(np.abs(got - ref)) / max(1e-300, np.max(np.abs(ref)))
    if err > tol:
        return f"relative error {err:.3e} (tolerance {tol:g})"
    return None


# ------------------------------------------------------------- generation
def gen_op(rng, pool, be, jit_p=0.0, bad_p=0.0, f32=False):
    base = dict(rng.choice(pool))
    kind = rng.choices(["single", "vmap_b", "vmap_v", "vmap_bv", "vmap_all", "vmap2"], [6, 1, 1, 1, .3, .2])[0]
    nb = 1 if kind == "single" else rng.choice([2, 3])
    sysl = []
    if be == "cholmod":
        base["pid"] = {6: 0, 7: 4, 10: 8, 11: 9}.get(base["pid"], base["pid"])
    lower = int(be == "cholmod" and rng.random() < 0.2)
    if be == "cholmod" and rng.random() < 0.15:
        base["tri"] = "L" if lower else "U"
    for i in range(nb):
        s = dict(base)
        s["bs"] = rng.randrange(1000)
        if i > 0 or rng.random() < 0.6:
            s["tw"] = rng.randrange(4)
        if i > 0 and rng.random() < 0.7:
            s["vs"] = rng.randrange(1000)
        s["sym"] = be == "cholmod" or s.get("sym", True)
        if f32:
            s["f32"] = 1
        sysl.append(s)
    if bad_p and rng.random() < bad_p:
        sysl[0 if kind == "vmap_b" else rng.randrange(nb)]["bad"] = rng.choice(
            ["singular", "indefinite", "nan"])
    op = dict(be=be, kind=kind, sys=sysl)
    if be == "cholmod":
        op["order"] = rng.choice(["default", "default", "natural", "amd"])
        op["lower"] = lower
    elif be == "umfpack":
        op["trans"] = rng.choice(["N", "N", "T"])
    else:
        op["reorder"] = rng.choice([0, 1])
    if kind == "vmap2" or (kind != "single" and rng.random() < 0.1):
        op["vm"] = "sequential"                    # nested batching is offered with this method only
    if rng.random() < 0.1:
        op["pad"] = rng.choice([1, 3])
    if rng.random() < jit_p:
        op["jit"] = 1
    return op


def gen_pool(rng):
    """A few systems that collide in the caches: same n, same nnz, same pattern."""
    n = rng.choice([3, 4, 6])
    k = rng.randrange(2, 5)
    pool = []
    pids = rng.choice([range(12), range(12), [0, 1, 2], [6, 7], [8, 9], [10, 11]])
    for _ in range(k):
        pool.append(dict(pid=rng.choice(pids),
                         n=n if rng.random() < 0.85 else rng.choice([3, 4, 6]),
                         vs=rng.randrange(1000), bs=rng.randrange(1000), tw=0,
                         sym=rng.random() < 0.5))
    return pool
