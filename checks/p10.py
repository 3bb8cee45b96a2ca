"""P10 - mesh generation leaves nothing behind and is not affected by the past."""
import contextlib
import ctypes
import hashlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from sim.core import Scenario, Violation

RULE = ("A plan is a sequence of mesh requests in one process, each with at most two faults: a mesher call that reports an "
        "error, runs out of memory or is interrupted (before or after it did its work), a temporary file that cannot be "
        "created, written or read. Non-trivial: a fault fired, or an invalid request failed, and another request came after.")
STATE_MEASURE = "distinct (request, mesher call the fault hit, fault kind) tuples, and pairs (request, next request)"
TIME_UNIT = "calls into the mesher"
REAL = "feax.mesh, feax.gene.adaptive, feax.gene.mesh_extraction, feax.gene.sdf, gmsh, meshio, pyvista, scikit-image"
STUB = "nothing; the seam is the table of native mesher functions and the functions that create, write and read temporary files"
ASSUMPTIONS = ["closing a session and deleting a file do not fail themselves", "the mesher is deterministic with one thread "
               "(confirmed: references come from separate processes)",
               "an error inside the native size callback cannot be injected: the mesher's binding swallows it"]
CONFIG = dict(quick=dict(wall_s=60, runs=6000, shrink_s=20, plan_s=90),
              thorough=dict(wall_s=900, runs=10 ** 9, shrink_s=40, plan_s=90))


def tet_box(n):
    import numpy as np
    from feax.mesh import Mesh
    g = np.linspace(0.0, 1.0, n + 1)
    P = np.array([[x, y, z] for x in g for y in g for z in g])
    idx = lambda i, j, k: (i * (n + 1) + j) * (n + 1) + k       # noqa
    T = []
    for i in range(n):
        for j in range(n):
            for k in range(n):
                v = [idx(i + a, j + b, k + c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
                for t in ((0, 4, 6, 7), (0, 6, 2, 7), (0, 2, 3, 7), (0, 3, 1, 7), (0, 1, 5, 7), (0, 5, 4, 7)):
                    T.append([v[a] for a in t])
    return Mesh(P, np.array(T, dtype=np.int32), ele_type="TET4")


def catalog():
    import gmsh
    import numpy as np
    import feax.mesh as M
    from feax.gene import adaptive as A, mesh_extraction as X, sdf as S
    b2, b4 = tet_box(2), tet_box(5)
    ramp = b2.points[:, 0].copy()
    blob = np.exp(-8 * np.sum((b4.points - 0.5) ** 2, axis=1))
    half = 1.0 - b2.points[:, 0]
    hexm = M.Mesh(np.array([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]),
                  np.array([[0, 1, 2, 3, 4, 5, 6, 7]]), ele_type="HEX8")

    def ball():
        gmsh.model.occ.addSphere(0, 0, 0, 1)
        gmsh.model.occ.synchronize()

    def bad_geometry():
        gmsh.model.occ.addSphere(0, 0, 0, 1)
        gmsh.option.setNumber("Mesh.RecombineAll", 1)
        raise RuntimeError("user geometry failed")

    def own_options():
        gmsh.option.setNumber("Mesh.Algorithm3D", 4)
        gmsh.option.setNumber("Mesh.ElementOrder", 1)
        gmsh.option.setNumber("Mesh.MeshSizeFactor", 0.8)
        ball()

    def boxy():
        gmsh.model.occ.addBox(0, 0, 0, 1, 1, 1)
        gmsh.model.occ.synchronize()
    warped = M.Mesh(b2.points * np.array([1.0, 0.5, 1.0]) ** 2 + 0.1 * b2.points[:, [1, 2, 0]] ** 2, b2.cells, ele_type="TET4")
    moved = M.Mesh(1.0 - b2.points, b2.cells[:, [1, 0, 2, 3]], ele_type="TET4")
    shared = ramp.copy()                         # one array, one mesh object: only their contents change
    live = M.Mesh(b2.points.copy(), b2.cells.copy(), ele_type="TET4")

    def inplace(values, points=None):
        shared[:] = values
        live.points[:] = b2.points if points is None else points
        return A.adaptive_box_mesh(1.0, shared, live, h_max=0.5, h_min=0.3)
    tri = M.Mesh(np.array([[0., 0], [1, 0], [1, 1], [0, 1]]), np.array([[0, 1, 2], [0, 2, 3]]), ele_type="TRI3")

    return {
        # requests that differ from another one in a single argument
        "box-tet-origin": lambda: M.box_mesh(1.0, origin=(0.25, -1.0, 2.0), mesh_size=0.5, element_type="TET4"),
        "box-tet-size": lambda: M.box_mesh(1.0, mesh_size=0.4, element_type="TET4"),
        "box-tet-side": lambda: M.box_mesh((1.0, 1.0, 1.25), mesh_size=0.5, element_type="TET4"),
        "box-hex-origin": lambda: M.box_mesh(1.0, origin=(0.0, 0.0, 3.0), mesh_size=0.5, element_type="HEX8"),
        "sphere-center": lambda: M.sphere_mesh(1.0, mesh_size=0.7, center=(0.0, 0.5, 0.0)),
        "sphere-radius": lambda: M.sphere_mesh(1.2, mesh_size=0.7),
        "sphere-size": lambda: M.sphere_mesh(1.0, mesh_size=0.6),
        "cylinder-center": lambda: M.cylinder_mesh(0.5, 1.0, mesh_size=0.5, center=(0.0, 0.0, 1.0)),
        "cylinder-height": lambda: M.cylinder_mesh(0.5, 1.5, mesh_size=0.5),
        "cylinder-size": lambda: M.cylinder_mesh(0.5, 1.0, mesh_size=0.4),
        "cylinder-y": lambda: M.cylinder_mesh(0.5, 1.0, mesh_size=0.5, axis=(0, 1, 0)),
        "refine-warped": lambda: M.refine_mesh(warped, 1),
        "refine-levels": lambda: M.refine_mesh(b2, 2),
        "refine-tri": lambda: M.refine_mesh(tri, 1),
        "adaptive-hmax": lambda: A.adaptive_box_mesh(1.0, h_max=0.4, h_min=0.2),
        "adaptive-origin": lambda: A.adaptive_box_mesh(1.0, ramp, b2, h_max=0.5, h_min=0.3, origin=(0.5, 0.0, 0.0)),
        "adaptive-side": lambda: A.adaptive_box_mesh((1.0, 1.0, 0.75), ramp, b2, h_max=0.5, h_min=0.3),
        "adaptive-hmin": lambda: A.adaptive_box_mesh(1.0, ramp, b2, h_max=0.5, h_min=0.25),
        "adaptive-ramp-back": lambda: A.adaptive_box_mesh(1.0, 1.0 - ramp, b2, h_max=0.5, h_min=0.3),
        "adaptive-ramp-moved": lambda: A.adaptive_box_mesh(1.0, ramp, moved, h_max=0.5, h_min=0.3),
        "adaptive-flat": lambda: A.adaptive_box_mesh(1.0, 0.0 * ramp + 1.0, b2, h_max=0.5, h_min=0.3),
        "adaptive-inplace-a": lambda: inplace(ramp),
        "adaptive-inplace-b": lambda: inplace(1.0 - ramp),
        "adaptive-inplace-c": lambda: inplace(ramp, b2.points[:, [1, 0, 2]]),
        "adaptive-target2": lambda: A.adaptive_box_mesh(1.0, h_max=0.5, h_min=0.25, target_nodes=200),
        "adaptive-geometry-box": lambda: A.adaptive_mesh(boxy, h_max=0.7, h_min=0.3),
        "adaptive-geometry-back": lambda: A.adaptive_mesh(ball, 1.0 - ramp, b2, h_max=0.7, h_min=0.4),
        "extract-threshold": lambda: X.extract_volume_mesh(half, b2, 0.6),
        "extract-size": lambda: X.extract_volume_mesh(half, b2, 0.4, mesh_size=0.6),
        "extract-warped": lambda: X.extract_volume_mesh(half, warped, 0.4),
        "sdf-threshold": lambda: S.DensityField(blob, b4, 0.4).to_volume_mesh(resolution=12),
        "box-tet": lambda: M.box_mesh(1.0, mesh_size=0.5, element_type="TET4"),
        "box-tet2": lambda: M.box_mesh((1.0, 2.0, 0.5), origin=(1.0, 0.0, -1.0), mesh_size=0.6, element_type="TET4"),
        "box-hex": lambda: M.box_mesh(1.0, mesh_size=0.5, element_type="HEX8"),
        "box-hex-unstructured": lambda: M.box_mesh(1.0, mesh_size=0.5, element_type="HEX8", recombine=False),
        "box-bad": lambda: M.box_mesh((1.0, 0.0, 1.0), mesh_size=0.5),
        "sphere": lambda: M.sphere_mesh(1.0, mesh_size=0.7),
        "sphere-hex": lambda: M.sphere_mesh(1.0, mesh_size=0.7, element_type="HEX8"),
        "sphere-bad": lambda: M.sphere_mesh(-1.0, mesh_size=0.7),
        "cylinder": lambda: M.cylinder_mesh(0.5, 1.0, mesh_size=0.5),
        "cylinder-x": lambda: M.cylinder_mesh(0.5, 1.0, mesh_size=0.5, axis=(1, 0, 0)),
        "cylinder-hex": lambda: M.cylinder_mesh(0.5, 1.0, mesh_size=0.5, element_type="HEX8"),
        "refine-tet": lambda: M.refine_mesh(b2, 1),
        "refine-hex": lambda: M.refine_mesh(hexm, 2),
        "refine-quad": lambda: M.refine_mesh(M.rectangle_mesh(2, 2), 1),
        "refine-zero": lambda: M.refine_mesh(b2, 0),
        "adaptive-uniform": lambda: A.adaptive_box_mesh(1.0, h_max=0.5, h_min=0.2),
        "adaptive-ramp": lambda: A.adaptive_box_mesh(1.0, ramp, b2, h_max=0.5, h_min=0.3),
        "adaptive-periodic": lambda: A.adaptive_box_mesh(1.0, ramp, b2, h_max=0.5, h_min=0.3, periodic=True),
        "adaptive-target": lambda: A.adaptive_box_mesh(1.0, h_max=0.5, h_min=0.25, target_nodes=100),
        "adaptive-geometry": lambda: A.adaptive_mesh(ball, h_max=0.7, h_min=0.3),
        "adaptive-geometry-field": lambda: A.adaptive_mesh(ball, ramp, b2, h_max=0.7, h_min=0.4),
        "adaptive-user-options": lambda: A.adaptive_mesh(own_options, h_max=0.7, h_min=0.3),
        "adaptive-bad-geometry": lambda: A.adaptive_mesh(bad_geometry, h_max=0.6, h_min=0.3),
        "adaptive-no-file": lambda: A.adaptive_mesh("/nonexistent/a.step", h_max=0.6, h_min=0.3),
        "adaptive-bad-field": lambda: A.adaptive_box_mesh(1.0, ramp[:3], b2, h_max=0.5, h_min=0.3),
        "extract": lambda: X.extract_volume_mesh(half, b2, 0.4),
        "extract-tet10": lambda: X.extract_volume_mesh(half, b2, 0.4, mesh_size=0.6, element_type="TET10"),
        "extract-blob": lambda: X.extract_volume_mesh(blob, b4, 0.5),
        "extract-empty": lambda: X.extract_volume_mesh(half, b2, 7.0),
        "extract-bad-type": lambda: X.extract_volume_mesh(half, b2, 0.4, element_type="HEX8"),
        "sdf": lambda: S.DensityField(blob, b4, 0.5).to_volume_mesh(resolution=12),
        "sdf-tet10": lambda: S.DensityField(blob, b4, 0.5).to_volume_mesh(resolution=12, element_type="TET10"),
        "sdf-bad-type": lambda: S.DensityField(blob, b4, 0.5).to_volume_mesh(resolution=12, element_type="HEX8"),
    }


NAMES = ["box-tet", "box-tet2", "box-hex", "box-hex-unstructured", "box-bad", "sphere", "sphere-hex", "sphere-bad", "cylinder",
         "cylinder-x", "cylinder-hex", "refine-tet", "refine-hex", "refine-quad", "refine-zero", "adaptive-uniform",
         "adaptive-ramp", "adaptive-periodic", "adaptive-target", "adaptive-geometry", "adaptive-geometry-field",
         "adaptive-user-options", "adaptive-bad-geometry", "adaptive-no-file", "adaptive-bad-field", "extract", "extract-tet10",
         "extract-blob", "extract-empty", "extract-bad-type", "sdf", "sdf-tet10", "sdf-bad-type"]
VARIANTS = ["box-tet-origin", "box-tet-size", "box-tet-side", "box-hex-origin", "sphere-center", "sphere-radius", "sphere-size",
            "cylinder-center", "cylinder-height", "cylinder-size", "cylinder-y", "refine-warped", "refine-levels", "refine-tri",
            "adaptive-hmax", "adaptive-origin", "adaptive-side", "adaptive-hmin", "adaptive-ramp-back", "adaptive-ramp-moved",
            "adaptive-flat", "adaptive-inplace-a", "adaptive-inplace-b", "adaptive-inplace-c", "adaptive-target2",
            "adaptive-geometry-box", "adaptive-geometry-back", "extract-threshold", "extract-size", "extract-warped",
            "sdf-threshold"]
BASE = list(NAMES)
NAMES = NAMES + VARIANTS
MUST_FAIL = {"box-bad", "sphere-bad", "adaptive-bad-geometry", "adaptive-no-file", "adaptive-bad-field", "extract-empty",
             "extract-bad-type", "sdf-bad-type"}
TEMP = [n for n in NAMES if n.startswith(("extract", "sdf"))]


def outcome(f, scribble=False):
    """(kind, digest) of one request."""
    import numpy as np
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            m = f()
        except Exception as e:
            return ["exception", type(e).__name__]
    h = hashlib.sha256()
    for a, t in ((m.points, np.float64), (m.cells, np.int64)):
        a = np.ascontiguousarray(np.asarray(a).astype(t))
        h.update(repr(a.shape).encode() + a.tobytes())
    h.update(str(m.ele_type).encode())
    if scribble:                                 # the caller goes on to change the mesh it was given
        for a in (m.points, m.cells):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = a[::-1].copy()
    return ["mesh", h.hexdigest()[:20]]


def reference_server(d):
    """Every request in a process of its own: a fork of one that imported everything and never called the mesher."""
    import warnings
    warnings.simplefilter("ignore")
    import gmsh, meshio, pyvista, skimage, feax.mesh, feax.gene.adaptive, feax.gene.mesh_extraction, feax.gene.sdf  # noqa
    for n in sorted(NAMES, key=lambda n: not n.startswith(("extract", "sdf"))):
        try:
            os.close(os.open(os.path.join(d, n + ".claim"), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        pid = os.fork()
        if pid == 0:
            try:
                txt = json.dumps(outcome(catalog()[n]))
            except BaseException as e:       # noqa
                txt = json.dumps(["broken", repr(e)[-500:]])
            put(d, n, txt)
            os._exit(0)
        os.waitpid(pid, 0)
        if not os.path.exists(os.path.join(d, n)):
            put(d, n, json.dumps(["broken", "the reference process died"]))


def put(d, n, txt):
    with open(os.path.join(d, n + ".tmp"), "w") as f:
        f.write(txt)
    os.replace(os.path.join(d, n + ".tmp"), os.path.join(d, n))


_EXEMPT = {"gmshFinalize", "gmshIsInitialized", "gmshLoggerGetLastError", "gmshFree", "gmshMalloc"}


class Lib:
    """The native function table with an injection point at every call."""

    def __init__(self, real):
        self.__dict__["_real"] = real
        self.__dict__["hook"] = None
        self.__dict__["_w"] = {}

    def __getattr__(self, name):
        fn = getattr(self._real, name)
        if not name.startswith("gmsh") or name in _EXEMPT:
            return fn
        w = self._w.get(name)
        if w is None:
            def w(*args, _fn=fn, _name=name):
                hook = self.hook
                if hook is None:
                    return _fn(*args)
                when, what = hook(_name)
                if when == "before":
                    if what == "ierr":
                        args[-1]._obj.value = 1
                        return 0
                    raise what
                r = _fn(*args)
                if when == "after":
                    raise what
                return r
            self._w[name] = w
        return w


class Meshing(Scenario):
    prop, name = "P10", "meshing"
    shrink_lists = ("ops", "faults")

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        import gmsh
        import meshio
        import pyvista
        self.gmsh, self.meshio, self.pv = gmsh, meshio, pyvista
        self.refs = self.references()
        for n in MUST_FAIL:
            self.refs.setdefault(n, None)
        self.lib = gmsh.lib = Lib(gmsh.lib)
        self.cat = catalog()
        assert set(self.cat) == set(NAMES)

    def references(self):
        d = os.path.join(os.environ.get("SIM_SCRATCH") or tempfile.gettempdir(), "p10refs")
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([sys.executable, "-c", f"from checks import p10; p10.reference_server({d!r})"],
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("no reference meshes: " + (p.stdout + p.stderr)[-500:])
        t0 = time.time()
        while any(not os.path.exists(os.path.join(d, n)) for n in NAMES):
            if time.time() - t0 > 300:
                raise RuntimeError("no reference meshes")
            time.sleep(0.05)
        refs = {n: json.load(open(os.path.join(d, n))) for n in NAMES}
        for n, r in refs.items():
            if r[0] == "broken":
                raise RuntimeError(f"reference {n}: {r[1]}")
        return refs

    def gen(self, rng):
        ops = []
        for i in range(rng.choice([2, 2, 3, 3, 4, 6])):
            n = rng.choice(NAMES if rng.random() < 0.6 else TEMP if rng.random() < 0.5 else NAMES[:3] + NAMES[15:22])
            if i and rng.random() < 0.5:          # a relative of the request before
                n = rng.choice([m for m in NAMES if m.split("-")[0] == ops[-1]["req"].split("-")[0]])
            op = dict(req=n, faults=[], scribble=int(rng.random() < 0.3))
            if rng.random() < 0.55:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    r = rng.random()
                    if n in TEMP and r < 0.4:
                        op["faults"].append(["file", rng.choice(["create", "create", "write", "read"]), rng.randrange(2),
                                             rng.choice(["enospc", "eio", "int"])])
                    else:
                        op["faults"].append(["call", rng.choice(["before", "before", "after"]),
                                             rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 25, 30, 40, 60]),
                                             rng.choice(["ierr", "ierr", "int", "mem", "exc"])])
            ops.append(op)
        ops[-1]["faults"] = []
        return dict(ops=ops)

    def normalise(self, plan):
        return plan if plan["ops"] else None

    def directed(self):
        # every mesher call of every request fails once, in turn, followed by a clean request
        for n in NAMES:
            for k in range(0, 20, 2 if n in TEMP else 5) if n in BASE else ():
                yield dict(ops=[dict(req=n, faults=[["call", "before", k, "ierr"]]), dict(req="box-tet", faults=[])])
            yield dict(ops=[dict(req=n, faults=[]), dict(req="adaptive-uniform", faults=[]), dict(req=n, faults=[])])
        for n in VARIANTS:
            base = max((m for m in BASE if n.startswith(m) and m not in MUST_FAIL), key=len, default=None)
            base = base or {"cylinder-y": "cylinder", "refine-tri": "refine-quad", "refine-warped": "refine-tet",
                            "refine-levels": "refine-tet", "adaptive-inplace-a": "adaptive-inplace-b",
                            "adaptive-inplace-b": "adaptive-inplace-a", "adaptive-inplace-c": "adaptive-inplace-a",
                            "adaptive-target2": "adaptive-target"}.get(n, "adaptive-ramp")
            yield dict(ops=[dict(req=base, faults=[], scribble=1), dict(req=n, faults=[]), dict(req=base, faults=[])])
        for n in TEMP:
            for w, k in (("create", 0), ("create", 1), ("write", 0), ("read", 0)):
                yield dict(ops=[dict(req=n, faults=[["file", w, k, "enospc"]]), dict(req="sphere", faults=[])])

    def execute(self, plan, res):
        tmp = tempfile.mkdtemp(prefix="mesh.")
        saved = tempfile.tempdir
        tempfile.tempdir = tmp
        try:
            prev = None
            disturbed = False
            for i, op in enumerate(plan["ops"]):
                got, fired, where = self.one(op, res, tmp)
                tag = f"request {i} ({op['req']}{', after ' + prev if prev else ''})"
                if self.gmsh.isInitialized():
                    raise Violation("session-left", f"{tag}: a mesher session is left open; fault {where}")
                left = sorted(os.listdir(tmp))
                if left:
                    raise Violation("temp-file-left", f"{tag}: temporary files left: {[os.path.splitext(x)[1] for x in left]}; fault {where}")
                ref = self.refs[op["req"]]
                if fired:
                    if got[0] != "exception":
                        raise Violation("failure-hidden", f"{tag}: the failure injected at {where} did not reach the caller")
                else:
                    if op["req"] in MUST_FAIL and got[0] != "exception":
                        raise Violation("failure-hidden", f"{tag}: an impossible request returned a mesh")
                    if got != ref:
                        raise Violation("different-mesh", f"{tag} gave {got}, a fresh process gives {ref}")
                res.states.add(hash((op["req"], tuple(where))))
                if prev:
                    res.states.add(hash((prev, op["req"])))
                if disturbed:
                    res.nontrivial = True
                disturbed = disturbed or bool(fired) or got[0] == "exception"
                prev = op["req"] + (" which failed at " + where[0] if fired else "")
                res.ev(op["req"], got, where)
        finally:
            tempfile.tempdir = saved
            self.lib.__dict__["hook"] = None
            if self.gmsh.isInitialized():
                self.gmsh.finalize()
            shutil.rmtree(tmp)

    def one(self, op, res, tmp):
        calls = {}
        files = {}
        for f in op["faults"]:
            if f[0] == "call":
                calls[f[2]] = (f[1], f[3])
            else:
                files[(f[1], f[2])] = f[3]
        count = [0]
        fcount = {}
        fired, where = [], []

        def mk(kind):
            return {"int": KeyboardInterrupt("injected"), "mem": MemoryError("injected"), "exc": Exception("injected"),
                    "enospc": OSError(28, "No space left on device"), "eio": OSError(5, "Input/output error")}[kind]

        def hook(name):
            k = count[0]
            count[0] += 1
            f = calls.get(k)
            if f is None or (fired and False):
                return None, None
            when, kind = f
            if name == "gmshInitialize":
                when = "before"
            if kind == "ierr" and when == "after":
                kind = "exc"
            what = "ierr" if kind == "ierr" else mk(kind)
            fired.append(what)
            where.append(f"{when} {name} {kind}")
            res.faults[f"mesher-{kind}-{when}"] += 1
            return when, what

        def filefault(what):
            k = fcount.get(what, 0)
            fcount[what] = k + 1
            kind = files.get((what, k))
            if kind:
                fired.append(kind)
                where.append(f"temp file {what} {kind}")
                res.faults[f"file-{what}-{kind}"] += 1
                raise mk(kind)
        real_open, real_read, real_save, real_write = os.open, self.meshio.read, self.pv.PolyData.save, self.meshio.Mesh.write

        def os_open(path, *a, **k):
            if isinstance(path, str) and path.startswith(tmp):
                filefault("create")
            return real_open(path, *a, **k)

        def read(path, *a, **k):
            filefault("read")
            return real_read(path, *a, **k)

        def save(self_, path, *a, **k):
            filefault("write")
            return real_save(self_, path, *a, **k)

        def write(self_, path, *a, **k):
            filefault("write")
            return real_write(self_, path, *a, **k)
        self.lib.__dict__["hook"] = hook
        os.open, self.meshio.read, self.pv.PolyData.save, self.meshio.Mesh.write = os_open, read, save, write
        try:
            try:
                got = outcome(self.cat[op["req"]], op.get("scribble") and op["req"] != "refine-zero")
            except KeyboardInterrupt:
                if not fired:
                    raise
                got = ["exception", "KeyboardInterrupt"]
        finally:
            self.lib.__dict__["hook"] = None
            os.open, self.meshio.read, self.pv.PolyData.save, self.meshio.Mesh.write = real_open, real_read, real_save, real_write
        res.sim_time += count[0]
        res.steps += count[0]
        return got, fired, where


SCENARIOS = [Meshing()]
