"""Small finite element problems built with feax, and an independent dense numpy reference of the same discrete
equations (own shape functions, quadrature and assembly; Jacobians by complex step)."""
import numpy as np

G = 1.0 / np.sqrt(3.0)
_XI = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]], float)          # QUAD4 corners
_QP = np.array([[a, b] for a in (-G, G) for b in (-G, G)])


def _shape(xi):
    return 0.25 * (1 + xi[0] * _XI[:, 0]) * (1 + xi[1] * _XI[:, 1])


def _dshape(xi):
    return 0.25 * np.stack([_XI[:, 0] * (1 + xi[1] * _XI[:, 1]), _XI[:, 1] * (1 + xi[0] * _XI[:, 0])], axis=1)


# ---------------------------------------------------------------- meshes
MESHES = {"a": (3, 2, 0.0), "b": (3, 2, 0.09), "c": (2, 3, 0.05), "d": (5, 1, 0.0), "big": (18, 15, 0.01)}


CON = {"a": 1.4, "b": 1.0, "c": 1.0, "d": 0.7, "big": 1.0}      # a constant of the problem object, not a parameter


def mesh_arrays(key):
    nx, ny, amp = MESHES[key]
    pts, idx = [], {}
    for i in range(nx + 1):
        for j in range(ny + 1):
            idx[i, j] = len(pts)
            x, y = i / nx, j / ny
            if 0 < i < nx and 0 < j < ny:
                x += amp * np.sin(3.0 * i + 5.0 * j)
                y += amp * np.cos(7.0 * i + 2.0 * j)
            pts.append([x, y])
    cells = [[idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]] for i in range(nx) for j in range(ny)]
    return np.array(pts), np.array(cells, dtype=np.int32)


# ------------------------------------------------------------- reference
class Ref:
    """Discrete residual of one family on one mesh.  params: dict(vol=[arrays], surf=[[funcs of x]...])"""

    def __init__(self, fam, key):
        self.f = FAMILIES[fam]
        self.con = CON[key]
        self.pts, self.cells = mesh_arrays(key)
        self.vec = self.f["vec"]
        self.N = len(self.pts)
        self.n = self.N * self.vec
        C = self.pts[self.cells]
        self.phi = np.array([_shape(q) for q in _QP])
        d = np.array([_dshape(q) for q in _QP])
        Jm = np.einsum("qai,cak->cqik", d, C)
        det = np.linalg.det(Jm)
        assert (det > 0).all()
        self.w = det
        inv = np.linalg.inv(Jm)
        self.dphi = np.einsum("cqki,qai->cqak", inv, d)
        self.faces = []
        for side in self.f["sides"]:
            fl = []
            for c, nodes in enumerate(self.cells):
                for a in range(4):
                    b = (a + 1) % 4
                    P, Q = self.pts[nodes[a]], self.pts[nodes[b]]
                    if side(P) and side(Q):
                        fl.append((nodes[a], nodes[b]))
            self.faces.append(np.array(fl))

    # dof numbering of feax: interleaved for a vector variable, stacked for several variables
    def dof(self, nodes):
        nodes = np.asarray(nodes)
        if self.f["stacked"]:
            return nodes[..., None] + self.N * np.arange(self.vec)
        return nodes[..., None] * self.vec + np.arange(self.vec)

    def _cell_res(self, ue, vol):
        u = np.einsum("qa,cav->cqv", self.phi, ue)
        g = np.einsum("cqak,cav->cqvk", self.dphi, ue)
        vq = []
        for kind, v in zip(self.f["kinds"], vol):
            v = np.asarray(v)
            if kind == "cell":
                vq.append(np.repeat(v[:, None], 4, axis=1))
            else:
                vq.append(np.einsum("qa,ca->cq", self.phi, v[self.cells]))
        flux, mass = self.f["ref"](u, g, *vq)
        flux = flux * self.con
        return (np.einsum("cqvk,cqak,cq->cav", flux, self.dphi, self.w) +
                np.einsum("cqv,qa,cq->cav", mass, self.phi, self.w))

    def _face_res(self, s, ue, surf):
        F = self.faces[s]
        P, Q = self.pts[F[:, 0]], self.pts[F[:, 1]]
        L = np.linalg.norm(Q - P, axis=1)
        out = np.zeros_like(ue)
        for xi in (-G, G):
            phi = np.array([(1 - xi) / 2, (1 + xi) / 2])
            x = phi[0] * P + phi[1] * Q
            u = np.einsum("a,fav->fv", phi, ue)
            t = self.f["surf_ref"][s](u, *[surf_eval(c, x) for c in surf])
            out = out + np.einsum("fv,a,f->fav", t, phi, L / 2)
        return out

    def residual(self, U, p, jac=False):
        """Residual without Dirichlet conditions, and its dense Jacobian."""
        R = np.zeros(self.n, complex)
        J = np.zeros((self.n, self.n)) if jac else None

        def add(nodes, fn):
            D = self.dof(nodes)                                   # (e, a, v)
            ue = np.asarray(U)[D].astype(complex)
            r = fn(ue)
            np.add.at(R, D, r)
            if jac:
                e, a, v = D.shape
                for k in range(a):
                    for c in range(v):
                        du = ue.copy()
                        du[:, k, c] += 1e-30j
                        col = fn(du).imag / 1e-30
                        np.add.at(J, (D, np.broadcast_to(D[:, k, c][:, None, None], D.shape)), col)
        add(self.cells, lambda ue: self._cell_res(ue, p["vol"]))
        for s in range(len(self.faces)):
            add(self.faces[s], lambda ue, s=s: self._face_res(s, ue, p["surf"][s]))
        return (R.real, J) if jac else R

    def bc(self, kind, scale=1.0):
        """(rows, values) of a named set of Dirichlet conditions."""
        rows, vals = [], []
        for sel, comp, val in self.f["bcs"][kind]:
            for i, x in enumerate(self.pts):
                if sel(x):
                    for c in (range(self.vec) if comp is None else [comp]):
                        rows.append(int(self.dof(i)[c]))
                        vals.append(val * scale)
        rows, o = np.unique(rows, return_index=True)                # overlapping conditions agree on their value
        return rows, np.array(vals)[o]

    def solve(self, p, rows, vals):
        U = np.zeros(self.n)
        U[rows] = vals
        free = np.setdiff1d(np.arange(self.n), rows)
        for it in range(60):
            R, J = self.residual(U, p, jac=True)
            d = np.linalg.solve(J[np.ix_(free, free)], -R[free])
            step = 1.0
            n0 = np.linalg.norm(R[free])
            while step > 1e-3:
                V = U.copy()
                V[free] += step * d
                if np.linalg.norm(self.residual(V, p).real[free]) < n0 * (1 - 0.1 * step) or n0 < 1e-9:
                    break
                step /= 2
            U = V
            if np.abs(d).max() * step < 1e-13 * (1 + np.abs(U).max()):
                break
        else:
            raise RuntimeError("reference did not converge")
        return U, J, free

    def adjoint(self, p, rows, vals, c):
        """u, lambda with d(c.u) = -lambda . dR(free rows) + (c - K_fb^T lambda) . d vals"""
        U, J, free = self.solve(p, rows, vals)
        lam = np.zeros(self.n)
        lam[free] = np.linalg.solve(J[np.ix_(free, free)].T, c[free])
        return U, lam, (c - J.T @ lam)[rows]


def surf_eval(c, x):
    """A surface field: a + b x + c y."""
    return c[0] + c[1] * x[..., 0] + c[2] * x[..., 1]


# -------------------------------------------------------------- families
_left, _right = (lambda x: abs(x[0]) < 1e-9), (lambda x: abs(x[0] - 1) < 1e-9)
_bottom, _top = (lambda x: abs(x[1]) < 1e-9), (lambda x: abs(x[1] - 1) < 1e-9)
_corner = lambda x: abs(x[0]) < 1e-9 and abs(x[1]) < 1e-9       # noqa


def _lame(E):
    nu = 0.3
    return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def _ref_elastic(u, g, E, f):
    la, mu = _lame(E)
    eps = 0.5 * (g + np.swapaxes(g, -1, -2))
    tr = eps[..., 0, 0] + eps[..., 1, 1]
    s = 2 * mu[..., None, None] * eps + (la * tr)[..., None, None] * np.eye(2)
    m = np.zeros(u.shape, u.dtype)
    m[..., 1] = f
    return s, m


def _ref_couple(u, g, k, b):
    flux = g * np.stack([k, 0 * k + 1.0], -1)[..., None]
    mass = np.stack([b * u[..., 1] - 1.0, 0.4 * u[..., 0] + 0.7 * g[..., 1, 0] - 0.3], -1)
    return flux, mass


FAMILIES = {
    "diffusion": dict(
        vec=1, stacked=False, linear=True, sym=True, kinds=("cell", "node"), sides=[_right, _top],
        ref=lambda u, g, k, s: (k[..., None, None] * g, -s[..., None]),
        surf_ref=[lambda u, h, ui: h[:, None] * (u - ui[:, None]), lambda u, q: 0 * u - q[:, None]],
        bcs=dict(A=[(_left, None, 1.0)], B=[(_left, None, 0.4), (_bottom, None, 0.4)], C=[(_corner, None, -0.7)])),
    "nonlinear": dict(
        vec=1, stacked=False, linear=False, sym=True, kinds=("cell", "node"), sides=[_right],
        ref=lambda u, g, k, s: ((k * (1 + 0.5 * (g ** 2).sum((-1, -2))))[..., None, None] * g,
                                0.6 * u ** 3 - s[..., None]),
        surf_ref=[lambda u, h, ui: h[:, None] * (u + 0.3 * u ** 3 - ui[:, None])],
        bcs=dict(A=[(_left, None, 0.8)], B=[(_left, None, 0.4), (_bottom, None, 0.4)], C=[(_corner, None, -0.5)])),
    "elastic": dict(
        vec=2, stacked=False, linear=True, sym=True, kinds=("cell", "node"), sides=[_right, _top],
        ref=_ref_elastic,
        surf_ref=[lambda u, tx, ty: np.stack([-tx + 0 * u[:, 0], -ty + 0 * u[:, 0]], -1),
                  lambda u, k: np.stack([0 * u[:, 0], k * u[:, 1]], -1)],
        bcs=dict(A=[(_left, None, 0.0)], B=[(_left, None, 0.0), (_bottom, 1, 0.0)], C=[(_left, 0, 0.1), (_corner, 1, 0.0)])),
    "couple": dict(
        vec=2, stacked=True, linear=True, sym=False, kinds=("node", "cell"), sides=[],
        ref=_ref_couple, surf_ref=[],
        bcs=dict(A=[(_left, None, 0.5)], B=[(_left, 0, 0.5), (_right, 1, -0.2)], C=[(_corner, 0, 0.1), (_left, 1, 0.3)])),
}
SURF_N = {"diffusion": [2, 1], "nonlinear": [2], "elastic": [2, 1], "couple": []}

ABORT = [0]          # >0: user code raises when it is traced that many calls from now


class UserAbort(Exception):
    pass


def user_code():
    if ABORT[0]:
        ABORT[0] -= 1
        if ABORT[0] == 0:
            raise UserAbort("user code failed while being traced")


_CLS = {}


def fresh_classes():
    """Forget the problem classes: what a class remembers must not outlive a run."""
    _CLS.clear()


def classes():
    """The user's problem classes; several problems are instances of one class."""
    if _CLS:
        return _CLS
    import jax.numpy as jnp
    import feax as fe

    class Diffusion(fe.Problem):
        def custom_init(self, con):
            self.con = con

        def get_tensor_map(self):
            def t(g, k, s):
                user_code()
                return self.con * k * g
            return t

        def get_mass_map(self):
            return lambda u, x, k, s: -s * jnp.ones_like(u)

        def get_surface_maps(self):
            return [lambda u, x, h, ui: h * (u - ui), lambda u, x, q: -q * jnp.ones_like(u)]

    class Nonlinear(fe.Problem):
        def custom_init(self, con):
            self.con = con

        def get_tensor_map(self):
            def t(g, k, s):
                user_code()
                return self.con * k * (1 + 0.5 * jnp.sum(g ** 2)) * g
            return t

        def get_mass_map(self):
            return lambda u, x, k, s: 0.6 * u ** 3 - s

        def get_surface_maps(self):
            return [lambda u, x, h, ui: h * (u + 0.3 * u ** 3 - ui)]

    class Elastic(fe.Problem):
        def custom_init(self, con):
            self.con = con

        def get_tensor_map(self):
            def t(g, E, f):
                user_code()
                la, mu = _lame(E)
                eps = 0.5 * (g + g.T)
                return self.con * (2 * mu * eps + la * jnp.trace(eps) * jnp.eye(2))
            return t

        def get_mass_map(self):
            return lambda u, x, E, f: jnp.stack([jnp.zeros_like(f), f]).reshape(2)

        def get_surface_maps(self):
            return [lambda u, x, tx, ty: jnp.stack([-tx, -ty]).reshape(2),
                    lambda u, x, k: jnp.stack([0 * u[0], k * u[1]])]

    class Couple(fe.Problem):
        def custom_init(self, con):
            self.con = con

        def get_weak_form(self):
            def wf(vals, grads, x, k, b):
                user_code()
                u, w = vals
                gu, gw = grads
                return ([b * w - 1.0, 0.4 * u + 0.7 * gw[:, 0] - 0.3], [self.con * k * gu, self.con * gw])
            return wf
    _CLS.update(diffusion=Diffusion, nonlinear=Nonlinear, elastic=Elastic, couple=Couple)
    return _CLS


def build(fam, key, upper=False):
    """The feax problem (upper: stores the upper triangle of its tangent only)."""
    import jax.numpy as jnp
    import feax as fe
    pts, cells = mesh_arrays(key)
    view = dict(matrix_view="UPPER") if upper else {}
    mk = lambda: fe.Mesh(pts, cells, ele_type="QUAD4")                 # noqa
    R = lambda p: jnp.isclose(p[0], 1.0, atol=1e-8)                    # noqa
    T = lambda p: jnp.isclose(p[1], 1.0, atol=1e-8)                    # noqa
    cls = classes()[fam]
    info = dict(additional_info=(CON[key],))
    if fam == "couple":
        return cls([mk(), mk()], vec=[1, 1], dim=2, ele_type=["QUAD4", "QUAD4"], **info)
    return cls(mk(), vec=FAMILIES[fam]["vec"], dim=2, ele_type="QUAD4",
               location_fns=[R] if fam == "nonlinear" else [R, T], **view, **info)


def make_bc(problem, fam, kind):
    import jax.numpy as jnp
    import feax as fe
    near = {_left: lambda p: jnp.isclose(p[0], 0.0, atol=1e-8), _right: lambda p: jnp.isclose(p[0], 1.0, atol=1e-8),
            _bottom: lambda p: jnp.isclose(p[1], 0.0, atol=1e-8), _top: lambda p: jnp.isclose(p[1], 1.0, atol=1e-8),
            _corner: lambda p: jnp.isclose(p[0], 0.0, atol=1e-8) & jnp.isclose(p[1], 0.0, atol=1e-8)}
    f = FAMILIES[fam]
    specs = []
    for sel, comp, val in f["bcs"][kind]:
        for c in (range(f["vec"]) if comp is None else [comp]):
            if f["stacked"]:
                specs.append(fe.DirichletBCSpec(near[sel], 0, val, variable_index=c))
            else:
                specs.append(fe.DirichletBCSpec(near[sel], c, val))
    return fe.DirichletBC.from_specs(problem, specs)


def params(ref, spec):
    """spec: dict(s=seed, zero=[...]) -> reference parameters."""
    r = np.random.RandomState(spec["s"])
    vol = []
    for i, kind in enumerate(ref.f["kinds"]):
        m = len(ref.cells) if kind == "cell" else ref.N
        a = r.uniform(0.5, 2.0, m) if i == 0 else r.uniform(-1.0, 1.0, m)
        if spec.get("vz") and i == 1:
            a = 0 * a
        # exactly summable values; ``roll`` has the same values (sum, mean, norm, extrema) in other places
        vol.append(np.roll(np.round(a * 256) / 256, spec.get("roll", 0)))
    surf = []
    for k in SURF_N[[n for n, f in FAMILIES.items() if f is ref.f][0]]:
        surf.append([np.array([r.uniform(0.3, 1.5), r.uniform(0, 0.5), r.uniform(0, 0.5)]) * (0.0 if spec.get("sz") else 1.0)
                     for _ in range(k)])
    return dict(vol=vol, surf=surf)


def traced(problem, p):
    """The same parameters as feax.TracedParams."""
    import jax.numpy as jnp
    import feax as fe
    sv = []
    for s, coefs in enumerate(p["surf"]):
        x = np.asarray(problem.physical_surface_quad_points[s])
        sv.append(tuple(jnp.asarray(surf_eval(c, x)) for c in coefs))
    return fe.TracedParams(volume_vars=tuple(jnp.asarray(v) for v in p["vol"]), surface_vars=sv)
